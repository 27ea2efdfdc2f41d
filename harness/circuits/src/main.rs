#[path = "../../arith/src/el.rs"]
mod el;
mod gadgets;
mod points;
mod r1cs;
mod sys;
fn main() {
    vk::main_with(&[("C10", r1cs::c10), ("C11", gadgets::c11), ("C12", gadgets::c12), ("C13", points::c13)])
}
