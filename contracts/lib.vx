//@ source src/lib.rs
use crate::vio::{Read, Write};
//@ item const TMF_MAJOR
//@ item const TMF_MINOR
//@ item const MIN_TMF_MAJOR
//@ item const MIN_TMF_MINOR
//@ item const MAX_SEG_SIZE
//@ item type IndexType
//@ item type FloatType
//@ item type Vector4
//@ item type Vector3
//@ item type Vector2
//@ item enum TMFImportError
//@ item enum TMFExportError
// what thiserror's #[from] generates
impl vstd::std_specs::convert::FromSpecImpl<crate::vio::Error> for TMFImportError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: crate::vio::Error) -> Self { TMFImportError::IO(e) }
}
impl From<crate::vio::Error> for TMFImportError {
    fn from(e: crate::vio::Error) -> (ret: Self) { TMFImportError::IO(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<crate::vio::Error> for TMFExportError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: crate::vio::Error) -> Self { TMFExportError::IO(e) }
}
impl From<crate::vio::Error> for TMFExportError {
    fn from(e: crate::vio::Error) -> (ret: Self) { TMFExportError::IO(e) }
}
//@ item struct TMFPrecisionInfo
//@ item struct TMFMesh
pub use crate::custom_data::{CustomData, CustomDataSegment, DataSegmentError};
pub use crate::normals::NormalPrecisionMode;
pub use crate::tangents::*;
pub use crate::uv::UvPrecisionMode;
pub use crate::vertices::VertexPrecisionMode;
