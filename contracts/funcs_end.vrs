}
pub use tdata::TData;
pub use template::TreeTemplate;
fn main() {}
