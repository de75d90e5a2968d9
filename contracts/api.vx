//@ source src/lib.rs
/// Saving and loading (src/lib.rs)
pub mod api {
use vstd::prelude::*;
use crate::*;
use crate::vf::*;
use crate::mesh::*;
use crate::tmf::*;
use crate::tmf_importer::*;
use crate::tmf_exporter::*;
use vstd::std_specs::iter::IteratorSpec;
//@ fn TMFMesh::write_tmf
//@ spec
    requires prec_wf(*p_info), can_write(meshes_names@),
    ensures
        crate::read_extension::put(old(w), final(w), false, Seq::empty()),
        ret is Ok ==> exists|ms: Seq<MeshX>| #[trigger] file_saved(ms, meshes_names@, *p_info) && (*final(w)).sunk() == (*old(w)).sunk() + file_bytes(ms),
        old(w).infallible() && ret is Err ==> cannot_save_all(meshes_names@, *p_info),
//@ end
//@ fn TMFMesh::write_tmf_one
//@ spec
    requires prec_wf(*p_info), self.wf(), in_bounds(self@.vt, self@.v),
    ensures
        crate::read_extension::put(old(w), final(w), false, Seq::empty()),
        ret is Ok ==> exists|m: MeshX| #[trigger] mesh_saved(m, self@, name.borrowed()@, *p_info) && (*final(w)).sunk() == (*old(w)).sunk() + file_bytes(seq![m]),
        old(w).infallible() && ret is Err ==> cannot_save(self@, name.borrowed()@, *p_info),
//@ subst `.clone` => `.clone_vx`
//@ begin
        hide(mesh_saved); hide(oversize); hide(file_bytes);
//@ ret-bind
        proof {
            let l = seq![(*self, name)];
            assert(ret__ is Err ==> (exists|k: Seq<(TMFMesh, S)>| k.len() == 1 && k[0] == l[0] && #[trigger] cannot_save_all(k, *p_info)) || !old(w).infallible());
            if ret__ is Ok {
                let (k, ms) = choose|k: Seq<(TMFMesh, S)>, ms: Seq<MeshX>| k.len() == 1 && k[0] == l[0] && #[trigger] file_saved(ms, k, *p_info) && (*w).sunk() == (*old(w)).sunk() + file_bytes(ms);
                assert(ms =~= seq![ms[0]]);
            }
        }
//@ end
//@ fn TMFMesh::read_tmf
//@ spec
    ensures
        ret matches Ok(r) ==> exists|n: int, wide: bool, ms: Seq<MeshX>| #[trigger] file_at(old(reader).rest(), n, wide, ms) && meshes_are(ms, wide, r@),
        old(reader).reliable() && can_file(old(reader).rest()) ==> ret is Ok,
        old(reader).reliable() && old(reader).rest().len() >= 3 && old(reader).rest().take(3) != tmf_magic() ==> (ret matches Err(e) && e is NotTMFFile),
        forall|mj: u16, mn: u16| old(reader).reliable() && #[trigger] min_version(old(reader).rest(), mj, mn) && newer(mj, mn) ==> (ret matches Err(e) && e is NewerVersionRequired),
//@ end
//@ fn TMFMesh::read_tmf_async
//@ spec
    ensures
        ret matches Ok(r) ==> exists|n: int, wide: bool, ms: Seq<MeshX>| #[trigger] file_at(old(reader).rest(), n, wide, ms) && meshes_are(ms, wide, r@),
        old(reader).reliable() && can_file(old(reader).rest()) ==> ret is Ok,
        old(reader).reliable() && old(reader).rest().len() >= 3 && old(reader).rest().take(3) != tmf_magic() ==> (ret matches Err(e) && e is NotTMFFile),
        forall|mj: u16, mn: u16| old(reader).reliable() && #[trigger] min_version(old(reader).rest(), mj, mn) && newer(mj, mn) ==> (ret matches Err(e) && e is NewerVersionRequired),
//@ end
pub open spec fn one_of(n: int, ret: core::result::Result<(TMFMesh, String), TMFImportError>) -> bool {
    if n == 1 { ret is Ok } else { ret matches Err(e) && if n == 0 { e is NoMeshes } else { e is TooManyMeshes } }
}
/// what reading a single mesh gives
pub open spec fn one(src: Seq<u8>, ret: core::result::Result<(TMFMesh, String), TMFImportError>, reliable: bool) -> bool {
    &&& ret matches Ok(r) ==> exists|n: int, wide: bool, m: MeshX| #[trigger] file_at(src, n, wide, seq![m]) && mesh_is(m, wide, r)
    &&& reliable ==> forall|n: int, wide: bool, ms: Seq<MeshX>| #[trigger] file_rok(src, n, wide, ms) ==> one_of(ms.len() as int, ret)
    &&& reliable && src.len() >= 3 && src.take(3) != tmf_magic() ==> (ret matches Err(e) && e is NotTMFFile)
    &&& forall|mj: u16, mn: u16| reliable && #[trigger] min_version(src, mj, mn) && newer(mj, mn) ==> (ret matches Err(e) && e is NewerVersionRequired)
}
proof fn lemma_one(src: Seq<u8>, v: Seq<(TMFMesh, String)>)
    requires exists|n: int, wide: bool, ms: Seq<MeshX>| #[trigger] file_at(src, n, wide, ms) && meshes_are(ms, wide, v),
    ensures
        forall|n: int, wide: bool, ms: Seq<MeshX>| #[trigger] file_rok(src, n, wide, ms) ==> ms.len() == v.len(),
        v.len() == 1 ==> exists|n: int, wide: bool, m: MeshX| #[trigger] file_at(src, n, wide, seq![m]) && mesh_is(m, wide, v[0]),
{
    hide(file_at); hide(mesh_is); hide(segs_rok);
    let (n1, wide1, ms1) = choose|n: int, wide: bool, ms: Seq<MeshX>| #[trigger] file_at(src, n, wide, ms) && meshes_are(ms, wide, v);
    assert forall|n: int, wide: bool, ms: Seq<MeshX>| #[trigger] file_rok(src, n, wide, ms) implies ms.len() == v.len() by { theorem_file_det(src, n, wide, ms, n1, wide1, ms1); }
    if v.len() == 1 { assert(ms1 =~= seq![ms1[0]]); assert(mesh_is(ms1[0], wide1, v[0])); }
}
//@ fn TMFMesh::read_tmf_one
//@ spec
    ensures one(old(reader).rest(), ret, old(reader).reliable()),
//@ subst `Self::read_tmf(reader)?.into_iter()` => `{ let all = Self::read_tmf(reader)?; proof { lemma_one(src0, all@); } all.into_iter() }`
//@ begin
        hide(file_at); hide(mesh_is); hide(segs_rok); hide(min_version); hide(file_rok);
        let ghost src0 = reader.rest();
//@ end
//@ fn TMFMesh::read_tmf_one_async
//@ spec
    ensures one(old(reader).rest(), ret, old(reader).reliable()),
//@ subst `Self::read_tmf_async(reader).await?.into_iter()` => `{ let all = Self::read_tmf_async(reader)?; proof { lemma_one(src0, all@); } all.into_iter() }`
//@ begin
        hide(file_at); hide(mesh_is); hide(segs_rok); hide(min_version); hide(file_rok);
        let ghost src0 = reader.rest();
//@ end
}
