mod curves;
mod cv;
mod el;
mod ext;
mod fields;
mod jubjub;
mod macros;
mod pairing;
fn main() {
    if std::env::args().nth(1).as_deref() == Some("probe-shared-add-assign") { return curves::probe_shared_add_assign(); }
    vk::main_with(&[("C01", fields::c01), ("C02", fields::c02), ("C03", fields::c03), ("C04", fields::c04), ("C05", ext::c05), ("C06", curves::c06), ("C07", curves::c07), ("C08", macros::c08), ("C09", pairing::c09)])
}
