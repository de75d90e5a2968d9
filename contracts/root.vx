#![allow(unused, dead_code, non_snake_case, non_camel_case_types)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ path std::io => crate::vio
//@ path UnalignedStorage::from_be_bytes => crate::vf::usize_from_be_bytes
//@ path u16::from_le_bytes => crate::vf::u16_from_le_bytes
//@ path u32::from_le_bytes => crate::vf::u32_from_le_bytes
//@ path u64::from_le_bytes => crate::vf::u64_from_le_bytes
//@ path f64::from_le_bytes => crate::vf::f64_from_le_bytes
//@ path .to_le_bytes => le_bytes
//@ path FloatType::MIN_POSITIVE => crate::fl::F_MIN_POSITIVE
//@ path FloatType::MIN => crate::fl::F_MIN
//@ path FloatType::MAX => crate::fl::F_MAX
//@ path FloatType::INFINITY => crate::fl::F_INFINITY
//@ path std::f64::consts::PI => crate::fl::D_PI
//@ path FRAC_PI_2 => crate::fl::F_PI_2
//@ path .into => into_vx
//@ path Into => crate::vf::IntoVx
//@ path .extend => extend_vx
//@ path .as_ref => as_ref_vx
//@ path SmallVec::new => Vec::new
//@ path .drain => drain_vx
//@ path .min => min_vx
//@ path .max => max_vx
//@ path join_all => crate::vf::join_all
//@ path futures::future::join_all => crate::vf::join_all
//@ path std::borrow::Borrow => crate::vf::BorrowVx
//@ path std::mem::MaybeUninit => crate::vf::MaybeUninit
//@ include lib_io.vx
//@ include lib_bits.vx
//@ include lib_num.vx
//@ include lib_float.vx
//@ include lib.vx
//@ include unaligned_rw.vx
//@ include read_extension.vx
//@ include tmf_importer.vx
//@ include vertices.vx
//@ include uv.vx
//@ include tmf.vx
//@ include tmf_exporter.vx
//@ include custom_data.vx
//@ include normals.vx
//@ include tangents.vx
//@ include mesh.vx
//@ include utilis.vx
//@ include verify.vx
//@ include api.vx
//@ include unify_data.vx
//@ include theorems.vx
}
