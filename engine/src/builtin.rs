//! Classification of functions the engine models itself.
macro_rules! builtins {
    ($($n:ident),* $(,)?) => {
        #[allow(non_camel_case_types, dead_code)]
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        #[repr(u32)]
        pub enum B { None, $($n),* }
        impl B { pub fn from(x: u32) -> B { unsafe { std::mem::transmute(x) } } }
    };
}
builtins! {
    Nop, Zero, One, MinusOne, SymInt, SymAssume, SymFail, SymCheck, SymObserve, SymPanicMode, SymReach, SymConc, SymReplay, SymForkSelect,
    SymNote, SymIsSym,
    Panic, Abort, Malloc, Calloc, Realloc, Free, PosixMemalign, AlignedAlloc, RAlloc, RAllocZ, RDealloc, RRealloc,
    Memcmp, Strlen, Memchr, Memrchr, Write, Writev, GetRandom, Syscall, Errno, Memcpy, Memset, Memmove,
    IMemcpy, IMemset, Cttz, Ctlz, Ctpop, Bswap, Bitrev, Fshl, Fshr, Umin, Umax, Smin, Smax, Abs,
    UaddSat, UsubSat, SaddSat, SsubSat, UaddO, UsubO, UmulO, SaddO, SsubO, SmulO, Ucmp, Scmp, Arg0, Trap, ObjSize, Pmovmskb,
    ReduceOr, ReduceAnd, ReduceAdd, ReduceUmax, ReduceUmin, ReduceXor,
    Unsupported, Exception, MaskedLoad, PtrMask, Exit, SymBytesEq, RandKeys, SymTry, Throw, FOpen, FRead, FClose, FNone, StrError,
}

pub fn lookup(name: &str, defined: bool) -> u32 {
    lk(name, defined) as u32
}
fn lk(n: &str, defined: bool) -> B {
    if let Some(r) = n.strip_prefix("__sym_") {
        return match r {
            "u8" | "u16" | "u32" | "u64" => B::SymInt,
            "assume" => B::SymAssume,
            "fail" => B::SymFail,
            "check" => B::SymCheck,
            "observe" => B::SymObserve,
            "panic_mode" => B::SymPanicMode,
            "reach" => B::SymReach,
            "concretize" => B::SymConc,
            "is_replay" => B::SymReplay,
            "fork_select" => B::SymForkSelect,
            "note" => B::SymNote,
            "is_symbolic" => B::SymIsSym,
            "bytes_eq" => B::SymBytesEq,
            "try" => B::SymTry,
            _ if defined => B::None,
            _ => B::Unsupported,
        };
    }
    if let Some(r) = n.strip_prefix("llvm.") {
        let starts = |p: &str| r.starts_with(p);
        if starts("memcpy.") || starts("memmove.") {
            return B::IMemcpy;
        }
        if starts("memset.") {
            return B::IMemset;
        }
        if starts("lifetime") || starts("dbg") || starts("experimental.noalias") || starts("assume")
            || starts("invariant") || starts("prefetch") || starts("sideeffect") || starts("donothing")
            || starts("x86.sse2.pause") || starts("stackrestore") || starts("stacksave") || starts("va_")
        {
            return B::Nop;
        }
        let t: &[(&str, B)] = &[
            ("cttz.", B::Cttz), ("ctlz.", B::Ctlz), ("ctpop.", B::Ctpop), ("bswap.", B::Bswap),
            ("bitreverse.", B::Bitrev), ("fshl.", B::Fshl), ("fshr.", B::Fshr), ("umin.", B::Umin),
            ("umax.", B::Umax), ("smin.", B::Smin), ("smax.", B::Smax), ("abs.", B::Abs),
            ("uadd.sat.", B::UaddSat), ("usub.sat.", B::UsubSat), ("sadd.sat.", B::SaddSat),
            ("ssub.sat.", B::SsubSat), ("uadd.with.overflow.", B::UaddO), ("usub.with.overflow.", B::UsubO),
            ("umul.with.overflow.", B::UmulO), ("sadd.with.overflow.", B::SaddO),
            ("ssub.with.overflow.", B::SsubO), ("smul.with.overflow.", B::SmulO), ("ucmp.", B::Ucmp),
            ("scmp.", B::Scmp), ("expect", B::Arg0), ("threadlocal.address", B::Arg0),
            ("launder.invariant", B::Arg0), ("strip.invariant", B::Arg0), ("ssa.copy", B::Arg0),
            ("is.constant", B::Zero), ("objectsize", B::ObjSize), ("trap", B::Trap), ("debugtrap", B::Trap), ("ubsantrap", B::Trap),
            ("x86.sse2.pmovmskb.128", B::Pmovmskb), ("vector.reduce.or.", B::ReduceOr),
            ("vector.reduce.and.", B::ReduceAnd), ("vector.reduce.add.", B::ReduceAdd),
            ("vector.reduce.umax.", B::ReduceUmax), ("vector.reduce.umin.", B::ReduceUmin),
            ("vector.reduce.xor.", B::ReduceXor), ("ptrmask.", B::PtrMask), ("allow.", B::One),
        ];
        for (p, b) in t {
            if starts(p) {
                return *b;
            }
        }
        return B::Unsupported;
    }
    // Rust panics: whatever the entry point, the path ends here
    if n.starts_with("_R") || n.starts_with("_ZN") {
        if n.contains("4core9panicking") && !n.contains("drop_glue") && !n.contains("4core3fmt") {
            return B::Panic;
        }
        if n.contains("17rust_begin_unwind") || n.contains("20rust_panic_with_hook") || n.contains("18handle_alloc_error")
            || n.contains("8rust_oom") || n.contains("11begin_panic") || n.contains("12handle_error")&&n.contains("7raw_vec")
        {
            return B::Panic;
        }
        if n.contains("7___rustc") || n.contains("___rust_") {
            if n.contains("19___rust_alloc_zeroed") {
                return B::RAllocZ;
            }
            if n.contains("12___rust_alloc") {
                return B::RAlloc;
            }
            if n.contains("14___rust_dealloc") {
                return B::RDealloc;
            }
            if n.contains("14___rust_realloc") {
                return B::RRealloc;
            }
            if n.contains("no_alloc_shim") {
                return B::Nop;
            }
        }
        if n.contains("19hashmap_random_keys") {
            return B::RandKeys;
        }
        if defined {
            return B::None;
        }
    }
    match n {
        "malloc" | "_Znwm" | "_Znam" | "_ZnwmRKSt9nothrow_t" => B::Malloc,
        "calloc" => B::Calloc,
        "realloc" => B::Realloc,
        "free" | "_ZdlPv" | "_ZdlPvm" | "_ZdaPv" | "_ZdaPvm" | "_ZdlPvmSt11align_val_t" => B::Free,
        "posix_memalign" => B::PosixMemalign,
        "aligned_alloc" | "_ZnwmSt11align_val_t" => B::AlignedAlloc,
        "memcmp" | "bcmp" => B::Memcmp,
        "strlen" => B::Strlen,
        "memchr" => B::Memchr,
        "memrchr" => B::Memrchr,
        "memcpy" => B::Memcpy,
        "memmove" => B::Memmove,
        "memset" => B::Memset,
        "write" | "fwrite" => B::Write,
        "open64" | "open" => B::FOpen,
        "read" => B::FRead,
        "close" => B::FClose,
        "__xpg_strerror_r" | "strerror_r" => B::StrError,
        "fcntl" => B::Zero,
        "fstat64" | "statx" | "lseek64" | "fstat" | "lseek" | "ioctl" | "isatty" => B::FNone,
        "writev" => B::Writev,
        "getrandom" | "getentropy" => B::GetRandom,
        "syscall" => B::Syscall,
        "__errno_location" => B::Errno,
        "abort" | "_ZSt9terminatev" | "__cxa_pure_virtual" | "rust_eh_personality" => B::Abort,
        "exit" | "_exit" => B::Exit,
        "getenv" | "__cxa_thread_atexit_impl" | "__cxa_atexit" | "atexit" | "pthread_key_create"
        | "pthread_setspecific" | "pthread_getspecific" | "puts" | "printf" | "fputc" | "fputs" => B::Zero,
        "__cxa_throw" => B::Throw,
        "__cxa_rethrow" | "__cxa_bad_cast" | "__cxa_call_unexpected" | "_Unwind_Resume"
        | "__clang_call_terminate" => B::Exception,
        "__cxa_allocate_exception" => B::Malloc,
        _ if n.starts_with("_ZSt") && n.contains("__throw_") => B::Exception,
        _ if defined => B::None,
        _ => B::Unsupported,
    }
}
