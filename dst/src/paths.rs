//! Where things are.
fn build() -> String {
    std::env::var("DST_BUILD").unwrap_or_else(|_| "/verif/.build".into())
}
pub fn server() -> String {
    format!("{}/sut/release/juno_axum", build())
}
pub fn probe() -> String {
    format!("{}/sut/release/probe", build())
}
pub fn libsim() -> String {
    format!("{}/lib/libsim.so", build())
}
