//! The static libraries of the repository as a foreign program links them (run.sh builds this three times).
pub use qir_stdlib;

#[cfg(feature = "full")]
#[allow(dead_code)]
#[path = "../../../harness-runner/src/prog.rs"]
mod prog;

/// The functions the runner knows: name and address of the i-th, null at the end.
#[cfg(feature = "full")]
#[no_mangle]
pub extern "C" fn capi_function(i: usize, name: *mut u8, cap: usize) -> *const u8 {
    use std::cell::OnceCell;
    thread_local!(static F: OnceCell<Vec<(String, usize)>> = const { OnceCell::new() });
    F.with(|f| {
        let f = f.get_or_init(|| {
            let mut v: Vec<(String, usize)> = vec![];
            for f in prog::functions() {
                // Functions of the output dialect without labels share their names with labelled ones and are
                // not exported; two-parameter measurement is an alias the runner makes.
                if f.legacy != Some(true) && !v.iter().any(|x| x.0 == f.name) {
                    v.push((f.name.to_string(), f.addr));
                }
            }
            v.push(("__quantum__rt__fail".into(), qir_backend::__quantum__rt__fail as *const () as usize));
            v.push(("quantum__rt__array_slice_1d".into(), qir_stdlib::range_support::quantum__rt__array_slice_1d as *const () as usize));
            v.push(("quantum__rt__range_to_string".into(), qir_stdlib::range_support::quantum__rt__range_to_string as *const () as usize));
            v
        });
        let Some((n, a)) = f.get(i) else { return std::ptr::null() };
        let n = std::ffi::CString::new(n.as_str()).unwrap();
        let b = n.as_bytes_with_nul();
        assert!(b.len() <= cap);
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), name, b.len()) };
        *a as *const u8
    })
}
