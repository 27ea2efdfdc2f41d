#[path = "../../arith/src/cv.rs"]
mod cv;
#[path = "../../arith/src/el.rs"]
mod el;
#[path = "../../arith/src/env.rs"]
mod env;
mod fft;
mod msm;
mod snark;
#[path = "../../circuits/src/sys.rs"]
mod sys;
fn main() {
    vk::main_with(&[("C14", fft::c14), ("C15", msm::c15), ("C16", snark::c16), ("C17", snark::c17), ("C18", snark::c18), ("C26", snark::c26)])
}
