pub mod vh;
pub mod model;
pub mod real;
pub mod smoke;
pub mod app;
pub mod mlink;
pub mod frames;
pub mod link;
pub mod misc;

/// every harness by name (used by the native replay binary)
pub fn table() -> Vec<(&'static str, extern "C" fn())> {
    let mut v = vec![];
    v.extend_from_slice(smoke::TABLE);
    v.extend_from_slice(app::TABLE);
    v.extend_from_slice(link::TABLE);
    v.extend_from_slice(misc::TABLE);
    v
}
