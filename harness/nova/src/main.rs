#[path = "../../arith/src/cv.rs"]
mod cv;
#[path = "../../arith/src/el.rs"]
mod el;
#[path = "../../arith/src/env.rs"]
mod env;
mod bignat;
mod codec;
mod fold;
mod nv;
mod oracle;
mod recursion;
mod stepc;
mod tamper;
#[path = "../../circuits/src/sys.rs"]
mod sys;
fn main() {
    vk::main_with(&[("C19", oracle::c19), ("C20", bignat::c20), ("C21", fold::c21), ("C22", fold::c22), ("C23", recursion::c23), ("C24", tamper::c24), ("C25", codec::c25), ("C27", stepc::c27)])
}
