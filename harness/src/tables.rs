//! Numeric codes and their meanings, transcribed from LLVM's headers and bitcode reader.

/// `LLVMBitCodes.h`: the attribute kinds, by number from 1.
pub const ATTRS: &[&str] = &[
    "ALIGNMENT",
    "ALWAYS_INLINE",
    "BY_VAL",
    "INLINE_HINT",
    "IN_REG",
    "MIN_SIZE",
    "NAKED",
    "NEST",
    "NO_ALIAS",
    "NO_BUILTIN",
    "NO_CAPTURE",
    "NO_DUPLICATE",
    "NO_IMPLICIT_FLOAT",
    "NO_INLINE",
    "NON_LAZY_BIND",
    "NO_RED_ZONE",
    "NO_RETURN",
    "NO_UNWIND",
    "OPTIMIZE_FOR_SIZE",
    "READ_NONE",
    "READ_ONLY",
    "RETURNED",
    "RETURNS_TWICE",
    "S_EXT",
    "STACK_ALIGNMENT",
    "STACK_PROTECT",
    "STACK_PROTECT_REQ",
    "STACK_PROTECT_STRONG",
    "STRUCT_RET",
    "SANITIZE_ADDRESS",
    "SANITIZE_THREAD",
    "SANITIZE_MEMORY",
    "UW_TABLE",
    "Z_EXT",
    "BUILTIN",
    "COLD",
    "OPTIMIZE_NONE",
    "IN_ALLOCA",
    "NON_NULL",
    "JUMP_TABLE",
    "DEREFERENCEABLE",
    "DEREFERENCEABLE_OR_NULL",
    "CONVERGENT",
    "SAFESTACK",
    "ARGMEMONLY",
    "SWIFT_SELF",
    "SWIFT_ERROR",
    "NO_RECURSE",
    "INACCESSIBLEMEM_ONLY",
    "INACCESSIBLEMEM_OR_ARGMEMONLY",
    "ALLOC_SIZE",
    "WRITEONLY",
    "SPECULATABLE",
    "STRICT_FP",
    "SANITIZE_HWADDRESS",
    "NOCF_CHECK",
    "OPT_FOR_FUZZING",
    "SHADOWCALLSTACK",
    "SPECULATIVE_LOAD_HARDENING",
    "IMMARG",
    "WILLRETURN",
    "NOFREE",
    "NOSYNC",
    "SANITIZE_MEMTAG",
    "PREALLOCATED",
    "NO_MERGE",
    "NULL_POINTER_IS_VALID",
    "NOUNDEF",
    "BYREF",
    "MUSTPROGRESS",
    "NO_CALLBACK",
    "HOT",
    "NO_PROFILE",
    "VSCALE_RANGE",
    "SWIFT_ASYNC",
    "NO_SANITIZE_COVERAGE",
    "ELEMENTTYPE",
    "DISABLE_SANITIZER_INSTRUMENTATION",
    "NO_SANITIZE_BOUNDS",
    "ALLOC_ALIGN",
    "ALLOCATED_POINTER",
    "ALLOC_KIND",
    "PRESPLIT_COROUTINE",
    "FNRETTHUNK_EXTERN",
    "SKIP_PROFILE",
    "MEMORY",
    "NOFPCLASS",
    "OPTIMIZE_FOR_DEBUGGING",
    "WRITABLE",
    "CORO_ONLY_DESTROY_WHEN_COMPLETE",
    "DEAD_ON_UNWIND",
];

/// The last attribute that the library knows.
pub const LAST_KNOWN_ATTR: u64 = 86;

/// Attributes that carry an integer. The unwind table attribute is both.
pub const INT_ATTRS: &[u64] = &[1, 25, 33, 41, 42, 51, 74, 82, 86];

pub fn attr_is_int(id: u64) -> bool {
    INT_ATTRS.contains(&id)
}
pub fn attr_is_enum(id: u64) -> bool {
    id >= 1 && id <= LAST_KNOWN_ATTR && (id == 33 || !attr_is_int(id))
}

/// `CallingConv.h` as of the library's list.
pub const CCS: &[(u64, &str)] = &[
    (0, "C"), (8, "Fast"), (9, "Cold"), (10, "GHC"), (11, "HiPE"), (12, "WebKit_JS"), (13, "AnyReg"),
    (14, "PreserveMost"), (15, "PreserveAll"), (16, "Swift"), (17, "CXX_FAST_TLS"),
    (64, "X86_StdCall"), (65, "X86_FastCall"), (66, "ARM_APCS"), (67, "ARM_AAPCS"), (68, "ARM_AAPCS_VFP"),
    (69, "MSP430_INTR"), (70, "X86_ThisCall"), (71, "PTX_Kernel"), (72, "PTX_Device"), (75, "SPIR_FUNC"),
    (76, "SPIR_KERNEL"), (77, "Intel_OCL_BI"), (78, "X86_64_SysV"), (79, "Win64"), (80, "X86_VectorCall"),
    (81, "HHVM"), (82, "HHVM_C"), (83, "X86_INTR"), (84, "AVR_INTR"), (85, "AVR_SIGNAL"), (86, "AVR_BUILTIN"),
    (87, "AMDGPU_VS"), (88, "AMDGPU_GS"), (89, "AMDGPU_PS"), (90, "AMDGPU_CS"), (91, "AMDGPU_KERNEL"),
    (92, "X86_RegCall"), (93, "AMDGPU_HS"), (94, "MSP430_BUILTIN"), (95, "AMDGPU_LS"), (96, "AMDGPU_ES"),
];

/// Newer ones, which the library may refuse.
pub const NEWER_CCS: &[u64] = &[18, 19, 20, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109];

pub fn cc(v: u64) -> Option<&'static str> {
    CCS.iter().find(|c| c.0 == v).map(|c| c.1)
}

/// `getDecodedLinkage`.
pub fn linkage(v: u64) -> &'static str {
    match v {
        1 | 16 => "WeakAny",
        2 => "Appending",
        3 => "Internal",
        4 | 18 => "LinkOnceAny",
        7 => "ExternalWeak",
        8 => "Common",
        9 | 13 | 14 => "Private",
        10 | 17 => "WeakOdr",
        11 | 19 => "LinkOnceOdr",
        12 => "AvailableExternally",
        _ => "External",
    }
}
pub fn visibility(v: u64) -> Option<&'static str> {
    ["Default", "Hidden", "Protected"].get(v.min(99) as usize).copied()
}
pub fn dll(v: u64) -> Option<&'static str> {
    ["Default", "Import", "Export"].get(v.min(99) as usize).copied()
}
/// `getDecodedThreadLocalMode`.
pub fn tls(v: u64) -> &'static str {
    match v {
        0 => "NotThreadLocal",
        2 => "LocalDynamicTls",
        3 => "InitialExecTls",
        4 => "LocalExecTls",
        _ => "GeneralDynamicTls",
    }
}
/// `getDecodedUnnamedAddrType`.
pub fn unnamed_addr(v: u64) -> &'static str {
    match v {
        1 => "Global",
        2 => "Local",
        _ => "None",
    }
}
/// `getDecodedDSOLocal`.
pub fn preemption(v: u64) -> &'static str {
    match v {
        1 => "DsoLocal",
        _ => "DsoPreemptable",
    }
}
/// `getDecodedComdatSelectionKind`, without its fallback.
pub fn comdat(v: u64) -> Option<&'static str> {
    ["", "Any", "ExactMatch", "Largest", "NoDeduplicate", "SameSize"].get(v.min(99) as usize).copied().filter(|s| !s.is_empty())
}
