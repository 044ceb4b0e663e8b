//! Writes the C header of the client library alone.
#[allow(unused_imports)]
use tp_client as _;
fn main() {
    let p = std::env::args().nth(1).expect("path");
    safer_ffi::headers::builder().to_file(&p).expect("file").generate().expect("headers");
}
