//! The part of the inkwell crate that the runner uses, over the C interface
//! of the LLVM 18 installed here (inkwell and its LLVM are not available
//! offline).
#![allow(non_snake_case)]

use std::ffi::{CStr, CString, c_char, c_int, c_uint, c_ulonglong, c_void};

pub type Ptr = *mut c_void;

#[link(name = "LLVM-18")]
unsafe extern "C" {
    fn LLVMContextCreate() -> Ptr;
    fn LLVMContextDispose(c: Ptr);
    fn LLVMContextSetDiagnosticHandler(c: Ptr, h: Option<extern "C" fn(Ptr, Ptr)>, d: Ptr);
    fn LLVMDisposeMessage(m: *mut c_char);
    fn LLVMVerifyModule(m: Ptr, action: c_int, out: *mut *mut c_char) -> c_int;
    fn LLVMDisposeModule(m: Ptr);
    fn LLVMPrintModuleToString(m: Ptr) -> *mut c_char;
    fn LLVMCreateMemoryBufferWithMemoryRangeCopy(p: *const c_char, n: usize, name: *const c_char) -> Ptr;
    fn LLVMCreateMemoryBufferWithContentsOfFile(p: *const c_char, out: *mut Ptr, m: *mut *mut c_char) -> c_int;
    fn LLVMDisposeMemoryBuffer(b: Ptr);
    fn LLVMGetBufferStart(b: Ptr) -> *const c_char;
    fn LLVMGetBufferSize(b: Ptr) -> usize;
    fn LLVMParseBitcodeInContext2(c: Ptr, b: Ptr, out: *mut Ptr) -> c_int;
    fn LLVMWriteBitcodeToFile(m: Ptr, path: *const c_char) -> c_int;
    fn LLVMGetFirstFunction(m: Ptr) -> Ptr;
    fn LLVMGetLastFunction(m: Ptr) -> Ptr;
    fn LLVMGetNextFunction(f: Ptr) -> Ptr;
    fn LLVMGetPreviousFunction(f: Ptr) -> Ptr;
    fn LLVMGetNamedFunction(m: Ptr, n: *const c_char) -> Ptr;
    fn LLVMGetValueName2(v: Ptr, n: *mut usize) -> *const c_char;
    fn LLVMCountParams(f: Ptr) -> c_uint;
    fn LLVMCountBasicBlocks(f: Ptr) -> c_uint;
    fn LLVMGetParam(f: Ptr, n: c_uint) -> Ptr;
    fn LLVMGetAttributeCountAtIndex(f: Ptr, i: c_uint) -> c_uint;
    fn LLVMGetAttributesAtIndex(f: Ptr, i: c_uint, a: *mut Ptr);
    fn LLVMGetStringAttributeAtIndex(f: Ptr, i: c_uint, k: *const c_char, n: c_uint) -> Ptr;
    fn LLVMIsStringAttribute(a: Ptr) -> c_int;
    fn LLVMIsEnumAttribute(a: Ptr) -> c_int;
    fn LLVMIsTypeAttribute(a: Ptr) -> c_int;
    fn LLVMGetEnumAttributeKind(a: Ptr) -> c_uint;
    fn LLVMGetEnumAttributeAtIndex(f: Ptr, i: c_uint, k: c_uint) -> Ptr;
    fn LLVMGlobalGetValueType(f: Ptr) -> Ptr;
    fn LLVMIsFunctionVarArg(t: Ptr) -> c_int;
    fn LLVMGetReturnType(t: Ptr) -> Ptr;
    fn LLVMCountParamTypes(t: Ptr) -> c_uint;
    fn LLVMGetParamTypes(t: Ptr, d: *mut Ptr);
    fn LLVMGetTypeKind(t: Ptr) -> c_uint;
    fn LLVMGetIntTypeWidth(t: Ptr) -> c_uint;
    fn LLVMPrintValueToString(v: Ptr) -> *mut c_char;
    fn LLVMGetFirstBasicBlock(f: Ptr) -> Ptr;
    fn LLVMGetLastBasicBlock(f: Ptr) -> Ptr;
    fn LLVMGetNextBasicBlock(b: Ptr) -> Ptr;
    fn LLVMIsDeclaration(f: Ptr) -> c_int;
    fn LLVMGetModuleIdentifier(m: Ptr, n: *mut usize) -> *const c_char;
    fn LLVMGetFunctionAddress(e: Ptr, n: *const c_char) -> u64;
    fn LLVMGenericValueToInt(g: Ptr, signed: c_int) -> c_ulonglong;
    fn LLVMGetHostCPUName() -> *mut c_char;
    fn LLVMGetHostCPUFeatures() -> *mut c_char;
    fn LLVMGetStringAttributeKind(a: Ptr, n: *mut c_uint) -> *const c_char;
    fn LLVMGetStringAttributeValue(a: Ptr, n: *mut c_uint) -> *const c_char;
    fn LLVMLinkInMCJIT();
    fn LLVMCreateJITCompilerForModule(e: *mut Ptr, m: Ptr, opt: c_uint, out: *mut *mut c_char) -> c_int;
    fn LLVMRemoveModule(e: Ptr, m: Ptr, out: *mut Ptr, err: *mut *mut c_char) -> c_int;
    fn LLVMDisposeExecutionEngine(e: Ptr);
    fn LLVMAddGlobalMapping(e: Ptr, f: Ptr, a: Ptr);
    fn LLVMRunFunction(e: Ptr, f: Ptr, n: c_uint, a: *mut Ptr) -> Ptr;
    fn LLVMDisposeGenericValue(g: Ptr);
    fn LLVMInitializeX86TargetInfo();
    fn LLVMInitializeX86Target();
    fn LLVMInitializeX86TargetMC();
    fn LLVMInitializeX86AsmPrinter();
    fn LLVMInitializeX86AsmParser();
    fn LLVMGetDefaultTargetTriple() -> *mut c_char;
    fn LLVMGetTargetFromTriple(t: *const c_char, out: *mut Ptr, err: *mut *mut c_char) -> c_int;
    fn LLVMTargetHasAsmBackend(t: Ptr) -> c_int;
    fn LLVMTargetHasTargetMachine(t: Ptr) -> c_int;
    fn LLVMCreateTargetMachine(
        t: Ptr, triple: *const c_char, cpu: *const c_char, features: *const c_char, level: c_uint, reloc: c_uint,
        model: c_uint,
    ) -> Ptr;
    fn LLVMDisposeTargetMachine(t: Ptr);
    fn LLVMCreatePassBuilderOptions() -> Ptr;
    fn LLVMDisposePassBuilderOptions(o: Ptr);
    fn LLVMRunPasses(m: Ptr, p: *const c_char, t: Ptr, o: Ptr) -> Ptr;
    fn LLVMGetErrorMessage(e: Ptr) -> *mut c_char;
    fn LLVMDisposeErrorMessage(m: *mut c_char);
    fn LLVMLoadLibraryPermanently(p: *const c_char) -> c_int;
}

pub mod llvm_sys {
    pub mod core {
        #[link(name = "LLVM-18")]
        unsafe extern "C" {
            pub fn LLVMCreateMemoryBufferWithMemoryRange(
                p: *const std::ffi::c_char,
                n: usize,
                name: *const std::ffi::c_char,
                nul: std::ffi::c_int,
            ) -> crate::Ptr;
        }
    }
    pub mod ir_reader {
        #[link(name = "LLVM-18")]
        unsafe extern "C" {
            pub fn LLVMParseIRInContext(
                c: crate::Ptr,
                b: crate::Ptr,
                out: *mut crate::Ptr,
                err: *mut *mut std::ffi::c_char,
            ) -> std::ffi::c_int;
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum OptimizationLevel {
    None = 0,
    Less = 1,
    #[default]
    Default = 2,
    Aggressive = 3,
}

fn text(s: &str) -> CString {
    CString::new(s.replace('\0', "")).expect("no NUL left")
}

fn leaked(p: *const c_char, n: usize) -> &'static CStr {
    let bytes = if p.is_null() { vec![] } else { unsafe { std::slice::from_raw_parts(p.cast::<u8>(), n) }.to_vec() };
    Box::leak(CString::new(bytes).expect("no NUL inside").into_boxed_c_str())
}

pub mod support {
    use super::*;

    #[derive(PartialEq, Eq, Clone)]
    pub struct LLVMString(pub(crate) CString);

    impl LLVMString {
        pub(crate) fn taken(p: *mut c_char) -> Self {
            if p.is_null() {
                return LLVMString(CString::default());
            }
            let s = unsafe { CStr::from_ptr(p) }.to_owned();
            unsafe { LLVMDisposeMessage(p) };
            LLVMString(s)
        }
        #[allow(clippy::inherent_to_string_shadow_display)]
        #[must_use]
        pub fn to_string(&self) -> String {
            self.0.to_string_lossy().into_owned()
        }
    }
    impl std::ops::Deref for LLVMString {
        type Target = CStr;
        fn deref(&self) -> &CStr {
            &self.0
        }
    }
    impl std::fmt::Display for LLVMString {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str(&self.0.to_string_lossy())
        }
    }
    impl std::fmt::Debug for LLVMString {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "{:?}", self.0)
        }
    }
    impl std::error::Error for LLVMString {}

    #[derive(Debug)]
    pub struct LoadLibraryError;
    impl std::fmt::Display for LoadLibraryError {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("cannot load the library")
        }
    }
    impl std::error::Error for LoadLibraryError {}

    #[allow(clippy::missing_errors_doc)]
    pub fn load_library_permanently(path: &std::path::Path) -> Result<(), LoadLibraryError> {
        let p = text(&path.to_string_lossy());
        // an empty path stands for the program itself
        let arg = if p.as_bytes().is_empty() { std::ptr::null() } else { p.as_ptr() };
        if unsafe { LLVMLoadLibraryPermanently(arg) } == 1 { Err(LoadLibraryError) } else { Ok(()) }
    }
}
use support::LLVMString;

extern "C" fn quiet(_: Ptr, _: Ptr) {}

pub mod context {
    use super::*;

    #[derive(Debug)]
    pub struct Context(pub(crate) Ptr);
    impl Context {
        #[must_use]
        pub fn create() -> Self {
            let c = unsafe { LLVMContextCreate() };
            unsafe { LLVMContextSetDiagnosticHandler(c, Some(quiet), std::ptr::null_mut()) };
            Context(c)
        }
        #[allow(clippy::missing_errors_doc)]
        pub fn create_module_from_ir(
            &self,
            b: memory_buffer::MemoryBuffer,
        ) -> Result<module::Module<'_>, LLVMString> {
            let (mut m, mut e) = (std::ptr::null_mut(), std::ptr::null_mut());
            let r = unsafe { llvm_sys::ir_reader::LLVMParseIRInContext(self.0, b.0, &raw mut m, &raw mut e) };
            // parsing takes the buffer
            std::mem::forget(b);
            if r == 0 { Ok(module::Module::new(m)) } else { Err(LLVMString::taken(e)) }
        }
    }
    impl Drop for Context {
        fn drop(&mut self) {
            unsafe { LLVMContextDispose(self.0) }
        }
    }
}

pub mod memory_buffer {
    use super::*;

    #[derive(Debug)]
    pub struct MemoryBuffer(pub(crate) Ptr);
    impl MemoryBuffer {
        #[must_use]
        pub fn create_from_memory_range(b: &[u8], name: &str) -> Self {
            Self::create_from_memory_range_copy(b, name)
        }
        #[must_use]
        pub fn create_from_memory_range_copy(b: &[u8], name: &str) -> Self {
            let n = text(name);
            MemoryBuffer(unsafe { LLVMCreateMemoryBufferWithMemoryRangeCopy(b.as_ptr().cast(), b.len(), n.as_ptr()) })
        }
        #[allow(clippy::missing_errors_doc)]
        pub fn create_from_file(path: &std::path::Path) -> Result<Self, LLVMString> {
            let p = text(&path.to_string_lossy());
            let (mut b, mut e) = (std::ptr::null_mut(), std::ptr::null_mut());
            let r = unsafe { LLVMCreateMemoryBufferWithContentsOfFile(p.as_ptr(), &raw mut b, &raw mut e) };
            if r == 0 { Ok(MemoryBuffer(b)) } else { Err(LLVMString::taken(e)) }
        }
        #[must_use]
        pub fn as_slice(&self) -> &[u8] {
            unsafe { std::slice::from_raw_parts(LLVMGetBufferStart(self.0).cast(), LLVMGetBufferSize(self.0)) }
        }
        #[must_use]
        pub fn get_size(&self) -> usize {
            unsafe { LLVMGetBufferSize(self.0) }
        }
    }
    impl Drop for MemoryBuffer {
        fn drop(&mut self) {
            unsafe { LLVMDisposeMemoryBuffer(self.0) }
        }
    }
}

pub mod module {
    use super::*;
    use std::{cell::Cell, marker::PhantomData, path::Path};

    #[derive(Debug)]
    pub struct Module<'c> {
        pub(crate) p: Ptr,
        /// the execution engine, which owns the module once there is one
        owner: Cell<Ptr>,
        _c: PhantomData<&'c ()>,
    }
    impl<'c> Module<'c> {
        pub(crate) fn new(p: Ptr) -> Self {
            Module { p, owner: Cell::new(std::ptr::null_mut()), _c: PhantomData }
        }
        #[allow(clippy::missing_errors_doc)]
        pub fn verify(&self) -> Result<(), LLVMString> {
            let mut e = std::ptr::null_mut();
            // 2: report, do not print
            let r = unsafe { LLVMVerifyModule(self.p, 2, &raw mut e) };
            let m = LLVMString::taken(e);
            if r == 0 { Ok(()) } else { Err(m) }
        }
        #[allow(clippy::missing_errors_doc)]
        pub fn create_jit_execution_engine(
            &self,
            opt: OptimizationLevel,
        ) -> Result<execution_engine::ExecutionEngine<'c>, LLVMString> {
            targets::native();
            let (mut x, mut e) = (std::ptr::null_mut(), std::ptr::null_mut());
            unsafe {
                LLVMLinkInMCJIT();
                if LLVMCreateJITCompilerForModule(&raw mut x, self.p, opt as c_uint, &raw mut e) != 0 {
                    return Err(LLVMString::taken(e));
                }
            }
            self.owner.set(x);
            Ok(execution_engine::ExecutionEngine { p: x, m: self.p, _c: PhantomData })
        }
        #[allow(clippy::missing_errors_doc, clippy::needless_pass_by_value)]
        pub fn run_passes(
            &self,
            passes: &str,
            machine: &targets::TargetMachine,
            options: passes::PassBuilderOptions,
        ) -> Result<(), LLVMString> {
            let p = text(passes);
            unsafe {
                let e = LLVMRunPasses(self.p, p.as_ptr(), machine.0, options.0);
                if e.is_null() {
                    return Ok(());
                }
                let m = LLVMGetErrorMessage(e);
                let s = CStr::from_ptr(m).to_owned();
                LLVMDisposeErrorMessage(m);
                Err(LLVMString(s))
            }
        }
        #[allow(clippy::missing_errors_doc)]
        pub fn parse_bitcode_from_path(
            path: impl AsRef<Path>,
            context: &'c context::Context,
        ) -> Result<Module<'c>, LLVMString> {
            let b = memory_buffer::MemoryBuffer::create_from_file(path.as_ref())?;
            Self::parse_bitcode_from_buffer(&b, context)
        }
        #[allow(clippy::missing_errors_doc)]
        pub fn parse_bitcode_from_buffer(
            b: &memory_buffer::MemoryBuffer,
            context: &'c context::Context,
        ) -> Result<Module<'c>, LLVMString> {
            let mut m = std::ptr::null_mut();
            if unsafe { LLVMParseBitcodeInContext2(context.0, b.0, &raw mut m) } == 0 {
                Ok(Module::new(m))
            } else {
                Err(LLVMString(CString::new("malformed bitcode").expect("text")))
            }
        }
        pub fn write_bitcode_to_path(&self, path: impl AsRef<Path>) -> bool {
            let p = text(&path.as_ref().to_string_lossy());
            unsafe { LLVMWriteBitcodeToFile(self.p, p.as_ptr()) == 0 }
        }
        pub fn get_first_function(&self) -> Option<values::FunctionValue<'c>> {
            values::FunctionValue::of(unsafe { LLVMGetFirstFunction(self.p) })
        }
        pub fn get_last_function(&self) -> Option<values::FunctionValue<'c>> {
            values::FunctionValue::of(unsafe { LLVMGetLastFunction(self.p) })
        }
        pub fn get_function(&self, name: &str) -> Option<values::FunctionValue<'c>> {
            let n = text(name);
            values::FunctionValue::of(unsafe { LLVMGetNamedFunction(self.p, n.as_ptr()) })
        }
        pub fn get_functions(&self) -> impl Iterator<Item = values::FunctionValue<'c>> + use<'c> {
            std::iter::successors(self.get_first_function(), |f| f.get_next_function())
        }
        pub fn print_to_string(&self) -> LLVMString {
            LLVMString::taken(unsafe { LLVMPrintModuleToString(self.p) })
        }
        #[allow(clippy::inherent_to_string)]
        pub fn to_string(&self) -> String {
            self.print_to_string().to_string()
        }
        pub fn get_name(&self) -> &CStr {
            let mut n = 0;
            let p = unsafe { LLVMGetModuleIdentifier(self.p, &raw mut n) };
            leaked(p, n)
        }
        pub fn create_execution_engine(&self) -> Result<execution_engine::ExecutionEngine<'c>, LLVMString> {
            self.create_jit_execution_engine(OptimizationLevel::None)
        }
    }
    impl Drop for Module<'_> {
        fn drop(&mut self) {
            // an execution engine gives the module back when it goes
            unsafe { LLVMDisposeModule(self.p) }
        }
    }
}

pub mod execution_engine {
    use super::*;
    use std::marker::PhantomData;

    #[derive(Debug)]
    pub struct ExecutionEngine<'c> {
        pub(crate) p: Ptr,
        pub(crate) m: Ptr,
        pub(crate) _c: PhantomData<&'c ()>,
    }
    #[derive(Debug, PartialEq, Eq)]
    pub enum FunctionLookupError {
        JITNotEnabled,
        FunctionNotFound,
    }
    impl std::fmt::Display for FunctionLookupError {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for FunctionLookupError {}

    impl<'c> ExecutionEngine<'c> {
        pub fn add_global_mapping(&self, f: &values::FunctionValue<'c>, address: usize) {
            unsafe { LLVMAddGlobalMapping(self.p, f.p, address as Ptr) }
        }
        #[allow(clippy::missing_errors_doc)]
        pub fn get_function_value(&self, name: &str) -> Result<values::FunctionValue<'c>, FunctionLookupError> {
            let n = text(name);
            let f = values::FunctionValue::of(unsafe { LLVMGetNamedFunction(self.m, n.as_ptr()) });
            f.filter(|f| f.count_basic_blocks() > 0).ok_or(FunctionLookupError::FunctionNotFound)
        }
        #[allow(clippy::missing_errors_doc)]
        pub fn get_function_address(&self, name: &str) -> Result<usize, FunctionLookupError> {
            self.get_function_value(name)?;
            let n = text(name);
            Ok(unsafe { LLVMGetFunctionAddress(self.p, n.as_ptr()) } as usize)
        }
        /// # Safety
        /// Runs the function.
        pub unsafe fn run_function(
            &self,
            f: values::FunctionValue<'c>,
            args: &[values::GenericValue],
        ) -> values::GenericValue {
            let mut a: Vec<Ptr> = args.iter().map(|g| g.0).collect();
            values::GenericValue(unsafe { LLVMRunFunction(self.p, f.p, a.len() as c_uint, a.as_mut_ptr()) })
        }
    }
    impl Drop for ExecutionEngine<'_> {
        fn drop(&mut self) {
            let (mut m, mut e) = (std::ptr::null_mut(), std::ptr::null_mut());
            unsafe {
                LLVMRemoveModule(self.p, self.m, &raw mut m, &raw mut e);
                LLVMDisposeExecutionEngine(self.p);
            }
        }
    }
}

pub mod passes {
    use super::*;

    #[derive(Debug)]
    pub struct PassBuilderOptions(pub(crate) Ptr);
    impl PassBuilderOptions {
        #[must_use]
        pub fn create() -> Self {
            PassBuilderOptions(unsafe { LLVMCreatePassBuilderOptions() })
        }
    }
    impl Drop for PassBuilderOptions {
        fn drop(&mut self) {
            unsafe { LLVMDisposePassBuilderOptions(self.0) }
        }
    }
    #[derive(Debug)]
    pub struct PassManager<T>(std::marker::PhantomData<T>);
}

pub mod targets {
    use super::*;

    #[derive(Debug, Default)]
    pub struct InitializationConfig {
        _p: (),
    }
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub enum RelocMode {
        #[default]
        Default = 0,
        Static = 1,
        PIC = 2,
        DynamicNoPic = 3,
    }
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub enum CodeModel {
        #[default]
        Default = 0,
        JITDefault = 1,
        Small = 3,
        Kernel = 4,
        Medium = 5,
        Large = 6,
    }

    pub(crate) fn native() {
        unsafe {
            LLVMInitializeX86TargetInfo();
            LLVMInitializeX86Target();
            LLVMInitializeX86TargetMC();
            LLVMInitializeX86AsmPrinter();
            LLVMInitializeX86AsmParser();
        }
    }

    #[derive(Debug, PartialEq, Eq, Clone)]
    pub struct TargetTriple(pub(crate) LLVMString);
    impl TargetTriple {
        #[must_use]
        pub fn as_str(&self) -> &CStr {
            &self.0
        }
    }

    #[derive(Debug)]
    pub struct TargetMachine(pub(crate) Ptr);
    impl TargetMachine {
        #[must_use]
        pub fn get_default_triple() -> TargetTriple {
            TargetTriple(LLVMString::taken(unsafe { LLVMGetDefaultTargetTriple() }))
        }
        #[must_use]
        pub fn get_host_cpu_name() -> LLVMString {
            LLVMString::taken(unsafe { LLVMGetHostCPUName() })
        }
        #[must_use]
        pub fn get_host_cpu_features() -> LLVMString {
            LLVMString::taken(unsafe { LLVMGetHostCPUFeatures() })
        }
    }
    impl Drop for TargetMachine {
        fn drop(&mut self) {
            unsafe { LLVMDisposeTargetMachine(self.0) }
        }
    }

    #[derive(Debug, Clone, Copy)]
    pub struct Target(pub(crate) Ptr);
    impl Target {
        #[allow(clippy::missing_errors_doc)]
        pub fn initialize_native(_: &InitializationConfig) -> Result<(), String> {
            native();
            Ok(())
        }
        #[allow(clippy::missing_errors_doc)]
        pub fn from_triple(t: &TargetTriple) -> Result<Self, LLVMString> {
            let (mut x, mut e) = (std::ptr::null_mut(), std::ptr::null_mut());
            if unsafe { LLVMGetTargetFromTriple(t.0.0.as_ptr(), &raw mut x, &raw mut e) } == 0 {
                Ok(Target(x))
            } else {
                Err(LLVMString::taken(e))
            }
        }
        #[must_use]
        pub fn has_asm_backend(&self) -> bool {
            unsafe { LLVMTargetHasAsmBackend(self.0) == 1 }
        }
        #[must_use]
        pub fn has_target_machine(&self) -> bool {
            unsafe { LLVMTargetHasTargetMachine(self.0) == 1 }
        }
        #[must_use]
        pub fn create_target_machine(
            &self,
            triple: &TargetTriple,
            cpu: &str,
            features: &str,
            level: OptimizationLevel,
            reloc: RelocMode,
            model: CodeModel,
        ) -> Option<TargetMachine> {
            let (c, f) = (text(cpu), text(features));
            let p = unsafe {
                LLVMCreateTargetMachine(
                    self.0,
                    triple.0.0.as_ptr(),
                    c.as_ptr(),
                    f.as_ptr(),
                    level as c_uint,
                    reloc as c_uint,
                    model as c_uint,
                )
            };
            (!p.is_null()).then_some(TargetMachine(p))
        }
    }
}

pub mod attributes {
    use super::*;

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum AttributeLoc {
        Return,
        Param(u32),
        Function,
    }
    impl AttributeLoc {
        pub(crate) fn index(self) -> c_uint {
            match self {
                AttributeLoc::Return => 0,
                AttributeLoc::Param(n) => n + 1,
                AttributeLoc::Function => c_uint::MAX,
            }
        }
    }

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Attribute(pub(crate) Ptr);
    impl Attribute {
        #[must_use]
        pub fn is_string(&self) -> bool {
            unsafe { LLVMIsStringAttribute(self.0) == 1 }
        }
        #[must_use]
        pub fn is_enum(&self) -> bool {
            unsafe { LLVMIsEnumAttribute(self.0) == 1 }
        }
        #[must_use]
        pub fn is_type(&self) -> bool {
            unsafe { LLVMIsTypeAttribute(self.0) == 1 }
        }
        #[must_use]
        pub fn get_enum_kind_id(&self) -> u32 {
            unsafe { LLVMGetEnumAttributeKind(self.0) }
        }
        #[must_use]
        pub fn get_string_kind_id(&self) -> &CStr {
            debug_assert!(self.is_string());
            let mut n = 0;
            let p = unsafe { LLVMGetStringAttributeKind(self.0, &raw mut n) };
            leaked(p, n as usize)
        }
        #[must_use]
        pub fn get_string_value(&self) -> &CStr {
            debug_assert!(self.is_string());
            let mut n = 0;
            let p = unsafe { LLVMGetStringAttributeValue(self.0, &raw mut n) };
            leaked(p, n as usize)
        }
    }
}

pub mod basic_block {
    use super::*;
    use std::marker::PhantomData;

    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub struct BasicBlock<'c> {
        p: Ptr,
        _c: PhantomData<&'c ()>,
    }
    impl BasicBlock<'_> {
        pub(crate) fn of(p: Ptr) -> Option<Self> {
            (!p.is_null()).then_some(BasicBlock { p, _c: PhantomData })
        }
        #[must_use]
        pub fn get_next_basic_block(self) -> Option<Self> {
            Self::of(unsafe { LLVMGetNextBasicBlock(self.p) })
        }
    }
}

pub mod types {
    use super::*;
    use std::marker::PhantomData;

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct FunctionType<'c> {
        pub(crate) p: Ptr,
        pub(crate) c: PhantomData<&'c ()>,
    }
    impl<'c> FunctionType<'c> {
        #[must_use]
        pub fn is_var_arg(self) -> bool {
            unsafe { LLVMIsFunctionVarArg(self.p) != 0 }
        }
        #[must_use]
        pub fn count_param_types(self) -> u32 {
            unsafe { LLVMCountParamTypes(self.p) }
        }
        #[must_use]
        pub fn get_param_types(self) -> Vec<BasicTypeEnum<'c>> {
            let mut v = vec![std::ptr::null_mut(); self.count_param_types() as usize];
            unsafe { LLVMGetParamTypes(self.p, v.as_mut_ptr()) };
            v.into_iter().map(|p| BasicTypeEnum { p, c: PhantomData }).collect()
        }
        /// none when it is void
        #[must_use]
        pub fn get_return_type(self) -> Option<BasicTypeEnum<'c>> {
            let p = unsafe { LLVMGetReturnType(self.p) };
            (unsafe { LLVMGetTypeKind(p) } != 0).then_some(BasicTypeEnum { p, c: PhantomData })
        }
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct BasicTypeEnum<'c> {
        p: Ptr,
        c: PhantomData<&'c ()>,
    }
    impl BasicTypeEnum<'_> {
        #[must_use]
        pub fn is_int_type(self) -> bool {
            unsafe { LLVMGetTypeKind(self.p) == 8 }
        }
        #[must_use]
        pub fn is_float_type(self) -> bool {
            unsafe { matches!(LLVMGetTypeKind(self.p), 1..=6) }
        }
        #[must_use]
        pub fn is_pointer_type(self) -> bool {
            unsafe { LLVMGetTypeKind(self.p) == 12 }
        }
        #[must_use]
        pub fn is_struct_type(self) -> bool {
            unsafe { LLVMGetTypeKind(self.p) == 10 }
        }
        #[must_use]
        pub fn into_int_type(self) -> Self {
            assert!(self.is_int_type());
            self
        }
        #[must_use]
        pub fn get_bit_width(self) -> u32 {
            unsafe { LLVMGetIntTypeWidth(self.p) }
        }
    }
}

pub mod values {
    use super::*;

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct GlobalValue<'c> {
        p: Ptr,
        _c: PhantomData<&'c ()>,
    }
    impl GlobalValue<'_> {
        #[must_use]
        pub fn is_declaration(self) -> bool {
            unsafe { LLVMIsDeclaration(self.p) != 0 }
        }
    }
    use attributes::{Attribute, AttributeLoc};
    use std::marker::PhantomData;

    #[derive(Debug)]
    pub struct GenericValue(pub(crate) Ptr);
    impl GenericValue {
        #[must_use]
        pub fn as_int(self, signed: bool) -> u64 {
            unsafe { LLVMGenericValueToInt(self.0, c_int::from(signed)) }
        }
    }
    impl Drop for GenericValue {
        fn drop(&mut self) {
            unsafe { LLVMDisposeGenericValue(self.0) }
        }
    }

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct BasicValueEnum<'c> {
        p: Ptr,
        _c: PhantomData<&'c ()>,
    }
    impl BasicValueEnum<'_> {
        #[must_use]
        pub fn is_null(&self) -> bool {
            self.p.is_null()
        }
    }

    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub struct FunctionValue<'c> {
        pub(crate) p: Ptr,
        _c: PhantomData<&'c ()>,
    }
    impl<'c> FunctionValue<'c> {
        pub(crate) fn of(p: Ptr) -> Option<Self> {
            (!p.is_null()).then_some(FunctionValue { p, _c: PhantomData })
        }
        #[must_use]
        pub fn attributes(self, loc: AttributeLoc) -> Vec<Attribute> {
            unsafe {
                let n = LLVMGetAttributeCountAtIndex(self.p, loc.index());
                let mut v = vec![std::ptr::null_mut(); n as usize];
                LLVMGetAttributesAtIndex(self.p, loc.index(), v.as_mut_ptr());
                v.into_iter().map(Attribute).collect()
            }
        }
        #[must_use]
        pub fn count_attributes(self, loc: AttributeLoc) -> u32 {
            unsafe { LLVMGetAttributeCountAtIndex(self.p, loc.index()) }
        }
        #[must_use]
        pub fn get_string_attribute(self, loc: AttributeLoc, key: &str) -> Option<Attribute> {
            let p = unsafe {
                LLVMGetStringAttributeAtIndex(self.p, loc.index(), key.as_ptr().cast(), key.len() as c_uint)
            };
            (!p.is_null()).then_some(Attribute(p))
        }
        #[must_use]
        pub fn get_enum_attribute(self, loc: AttributeLoc, kind: u32) -> Option<Attribute> {
            let p = unsafe { LLVMGetEnumAttributeAtIndex(self.p, loc.index(), kind) };
            (!p.is_null()).then_some(Attribute(p))
        }
        #[must_use]
        pub fn get_type(self) -> types::FunctionType<'c> {
            types::FunctionType { p: unsafe { LLVMGlobalGetValueType(self.p) }, c: PhantomData }
        }
        #[must_use]
        pub fn get_nth_param(self, n: u32) -> Option<BasicValueEnum<'c>> {
            self.get_params().get(n as usize).copied()
        }
        #[must_use]
        pub fn get_first_param(self) -> Option<BasicValueEnum<'c>> {
            self.get_nth_param(0)
        }
        #[must_use]
        pub fn get_last_param(self) -> Option<BasicValueEnum<'c>> {
            self.get_params().last().copied()
        }
        #[must_use]
        pub fn get_first_basic_block(self) -> Option<basic_block::BasicBlock<'c>> {
            basic_block::BasicBlock::of(unsafe { LLVMGetFirstBasicBlock(self.p) })
        }
        #[must_use]
        pub fn get_last_basic_block(self) -> Option<basic_block::BasicBlock<'c>> {
            basic_block::BasicBlock::of(unsafe { LLVMGetLastBasicBlock(self.p) })
        }
        pub fn get_basic_block_iter(self) -> impl Iterator<Item = basic_block::BasicBlock<'c>> {
            std::iter::successors(self.get_first_basic_block(), |b| b.get_next_basic_block())
        }
        #[must_use]
        pub fn get_basic_blocks(self) -> Vec<basic_block::BasicBlock<'c>> {
            self.get_basic_block_iter().collect()
        }
        #[must_use]
        pub fn is_null(self) -> bool {
            self.p.is_null()
        }
        #[must_use]
        pub fn print_to_string(self) -> LLVMString {
            LLVMString::taken(unsafe { LLVMPrintValueToString(self.p) })
        }
        #[must_use]
        pub fn as_global_value(self) -> GlobalValue<'c> {
            GlobalValue { p: self.p, _c: PhantomData }
        }
        #[must_use]
        pub fn count_params(self) -> u32 {
            unsafe { LLVMCountParams(self.p) }
        }
        #[must_use]
        pub fn count_basic_blocks(self) -> u32 {
            unsafe { LLVMCountBasicBlocks(self.p) }
        }
        #[must_use]
        pub fn get_params(self) -> Vec<BasicValueEnum<'c>> {
            (0..self.count_params())
                .map(|n| BasicValueEnum { p: unsafe { LLVMGetParam(self.p, n) }, _c: PhantomData })
                .collect()
        }
        pub fn get_param_iter(self) -> impl Iterator<Item = BasicValueEnum<'c>> {
            self.get_params().into_iter()
        }
        #[must_use]
        pub fn get_name(&self) -> &CStr {
            let mut n = 0;
            let p = unsafe { LLVMGetValueName2(self.p, &raw mut n) };
            leaked(p, n)
        }
        #[must_use]
        pub fn get_next_function(self) -> Option<Self> {
            Self::of(unsafe { LLVMGetNextFunction(self.p) })
        }
        #[must_use]
        pub fn get_previous_function(self) -> Option<Self> {
            Self::of(unsafe { LLVMGetPreviousFunction(self.p) })
        }
    }
}

#[allow(dead_code)]
type Unused = c_ulonglong;
