//! The LLVM code of a program, as text.
use pyo3::prelude::*;
use tket::hugr::envelope::EnvelopeConfig;
use tket::hugr::hugr::hugrmut::HugrMut;
use tket::hugr::llvm::inkwell;
use tket::hugr::package::Package;
use tket::hugr::HugrView;
extern crate qis as _;
extern "C" {
    fn PyInit_selene_hugr_qis_compiler() -> *mut pyo3::ffi::PyObject;
}
pub fn llvm(text: &str) -> String {
    let b = crate::prog::build(text).unwrap();
    let mut h = b.hugr;
    h.set_entrypoint(b.main);
    let exts = h.extensions().clone();
    let mut p = Package::new([h]);
    p.extensions = exts;
    let mut pkg = vec![];
    p.store(&mut pkg, EnvelopeConfig::binary()).unwrap();
    unsafe {
        pyo3::ffi::PyImport_AppendInittab(c"selene_hugr_qis_compiler".as_ptr(), Some(PyInit_selene_hugr_qis_compiler));
    }
    Python::initialize();
    let bc: Vec<u8> = Python::attach(|py| -> PyResult<Vec<u8>> {
        py.import("selene_hugr_qis_compiler")?.call_method1("compile_to_bitcode", (pyo3::types::PyBytes::new(py, &pkg), 2u32))?.extract()
    })
    .unwrap();
    let ctx = inkwell::context::Context::create();
    let buf = inkwell::memory_buffer::MemoryBuffer::create_from_memory_range_copy(&bc, "m");
    let m = inkwell::module::Module::parse_bitcode_from_buffer(&buf, &ctx).unwrap();
    let t = m.print_to_string().to_string();
    t
}
