pub use eyre;
pub use eyre::{Report, Result};

pub fn install() -> Result<()> {
    Ok(())
}
