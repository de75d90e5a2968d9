//@ source src/lib.rs
/// The accessors of TMFMesh (src/lib.rs)
pub mod mesh {
use vstd::prelude::*;
use crate::*;
use crate::vf::*;
use crate::custom_data::*;
use vstd::string::StringSliceAdditionalSpecFns;
pub open spec fn ov<T>(o: Option<Vec<T>>) -> Option<Seq<T>> {
    match o { Some(v) => Some(v@), None => None }
}
/// the parts of a mesh
pub struct MeshV {
    pub v: Option<Seq<Vector3>>, pub n: Option<Seq<Vector3>>, pub u: Option<Seq<Vector2>>, pub t: Option<Seq<Tangent>>,
    pub vt: Option<Seq<IndexType>>, pub nt: Option<Seq<IndexType>>, pub ut: Option<Seq<IndexType>>, pub tt: Option<Seq<IndexType>>,
    pub c: Seq<CustomDataSegment>,
}
impl TMFMesh {
    pub open spec fn wf(&self) -> bool { forall|i: int| 0 <= i < self.custom_data@.len() ==> (#[trigger] self.custom_data@[i]).wf() }
    pub open spec fn view(&self) -> MeshV {
        MeshV { 
            v: ov(self.vertices), n: ov(self.normals), u: ov(self.uvs), t: ov(self.tangents),
            vt: ov(self.vertex_triangles), nt: ov(self.normal_triangles), ut: ov(self.uv_triangles), tt: ov(self.tangent_triangles),
            c: self.custom_data@,
        }
    }
}
pub open spec fn empty_mesh() -> MeshV {
    MeshV { v: None, n: None, u: None, t: None, vt: None, nt: None, ut: None, tt: None, c: Seq::empty() }
}
/// o with s at its end
pub open spec fn app<T>(o: Option<Seq<T>>, s: Seq<T>) -> Option<Seq<T>> {
    match o { Some(v) => Some(v + s), None => Some(s) }
}
/// the elements that the indices select
pub open spec fn expand<T>(data: Seq<T>, idx: Seq<IndexType>) -> Seq<T> {
    Seq::new(idx.len(), |i: int| data[idx[i] as int])
}
pub open spec fn all_in<T>(data: Seq<T>, idx: Seq<IndexType>) -> bool {
    forall|i: int| 0 <= i < idx.len() ==> (#[trigger] idx[i]) < data.len()
}
/// the expanded buffer
pub open spec fn is_buffer<T>(d: Option<Seq<T>>, t: Option<Seq<IndexType>>, r: Option<Box<[T]>>) -> bool {
    match (d, t) {
        (Some(d), Some(t)) => if all_in(d, t) { r matches Some(b) && b@ == expand(d, t) } else { r is None },
        _ => r is None,
    }
}
pub open spec fn ob<T>(o: Option<&[T]>) -> Option<Seq<T>> {
    match o { Some(v) => Some(v@), None => None }
}
//@ fn TMFMesh::empty
//@ spec
    ensures ret@ == empty_mesh(),
//@ ret-bind
        proof { assert(ret__.custom_data@ =~= Seq::empty()); }
//@ end
//@ fn TMFMesh::set_vertices
//@ spec
    ensures
        ret == old(self).vertices,
        final(self).vertices is Some, vertices.into_is(final(self).vertices->Some_0),
        final(self)@ == (MeshV { v: final(self)@.v, ..old(self)@ }),
//@ end
//@ fn TMFMesh::get_vertices
//@ spec
    ensures ob(ret) == self@.v,
//@ end
//@ fn TMFMesh::append_vertices
//@ spec
    ensures final(self)@ == (MeshV { v: app(old(self)@.v, vertices@), ..old(self)@ }),
//@ end
//@ fn TMFMesh::set_normals
//@ spec
    ensures
        ret == old(self).normals,
        final(self).normals is Some, normals.into_is(final(self).normals->Some_0),
        final(self)@ == (MeshV { n: final(self)@.n, ..old(self)@ }),
//@ end
//@ fn TMFMesh::get_normals
//@ spec
    ensures ob(ret) == self@.n,
//@ end
//@ fn TMFMesh::append_normals
//@ spec
    ensures final(self)@ == (MeshV { n: app(old(self)@.n, normals@), ..old(self)@ }),
//@ end
//@ fn TMFMesh::set_tangents
//@ spec
    ensures
        ret == old(self).tangents,
        final(self).tangents is Some, tangents.into_is(final(self).tangents->Some_0),
        final(self)@ == (MeshV { t: final(self)@.t, ..old(self)@ }),
//@ end
//@ fn TMFMesh::get_tangents
//@ spec
    ensures ob(ret) == self@.t,
//@ end
//@ fn TMFMesh::append_tangents
//@ spec
    ensures final(self)@ == (MeshV { t: app(old(self)@.t, tangents@), ..old(self)@ }),
//@ end
//@ fn TMFMesh::set_uvs
//@ spec
    ensures
        ret == old(self).uvs,
        final(self).uvs is Some, uvs.into_is(final(self).uvs->Some_0),
        final(self)@ == (MeshV { u: final(self)@.u, ..old(self)@ }),
//@ end
//@ fn TMFMesh::get_uvs
//@ spec
    ensures ob(ret) == self@.u,
//@ end
//@ fn TMFMesh::append_uvs
//@ spec
    ensures final(self)@ == (MeshV { u: app(old(self)@.u, uvs@), ..old(self)@ }),
//@ end
//@ fn TMFMesh::set_vertex_triangles
//@ spec
    ensures
        ret == old(self).vertex_triangles,
        final(self).vertex_triangles is Some, triangles.into_is(final(self).vertex_triangles->Some_0),
        final(self)@ == (MeshV { vt: final(self)@.vt, ..old(self)@ }),
//@ end
//@ fn TMFMesh::get_vertex_triangles
//@ spec
    ensures ob(ret) == self@.vt,
//@ end
//@ fn TMFMesh::append_vertex_triangles
//@ spec
    ensures final(self)@ == (MeshV { vt: app(old(self)@.vt, triangles@), ..old(self)@ }),
//@ end
//@ fn TMFMesh::set_normal_triangles
//@ spec
    ensures
        ret == old(self).normal_triangles,
        final(self).normal_triangles is Some, triangles.into_is(final(self).normal_triangles->Some_0),
        final(self)@ == (MeshV { nt: final(self)@.nt, ..old(self)@ }),
//@ end
//@ fn TMFMesh::get_normal_triangles
//@ spec
    ensures ob(ret) == self@.nt,
//@ end
//@ fn TMFMesh::append_normal_triangles
//@ spec
    ensures final(self)@ == (MeshV { nt: app(old(self)@.nt, triangles@), ..old(self)@ }),
//@ end
//@ fn TMFMesh::set_uv_triangles
//@ spec
    ensures
        ret == old(self).uv_triangles,
        final(self).uv_triangles is Some, triangles.into_is(final(self).uv_triangles->Some_0),
        final(self)@ == (MeshV { ut: final(self)@.ut, ..old(self)@ }),
//@ end
//@ fn TMFMesh::get_uv_triangles
//@ spec
    ensures ob(ret) == self@.ut,
//@ end
//@ fn TMFMesh::append_uv_triangles
//@ spec
    ensures final(self)@ == (MeshV { ut: app(old(self)@.ut, triangles@), ..old(self)@ }),
//@ end
//@ fn TMFMesh::set_tangent_triangles
//@ spec
    ensures
        ret == old(self).tangent_triangles,
        final(self).tangent_triangles is Some, triangles.into_is(final(self).tangent_triangles->Some_0),
        final(self)@ == (MeshV { tt: final(self)@.tt, ..old(self)@ }),
//@ end
//@ fn TMFMesh::get_tangent_triangles
//@ spec
    ensures ob(ret) == self@.tt,
//@ end
//@ fn TMFMesh::append_tangent_triangles
//@ spec
    ensures final(self)@ == (MeshV { tt: app(old(self)@.tt, triangles@), ..old(self)@ }),
//@ end
//@ fn TMFMesh::get_vertex_buffer
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    ensures is_buffer(self@.v, self@.vt, ret),
//@ loop 1
            invariant
                vertex_buffer@.len() == it1.index@,
                forall|i: int| 0 <= i < it1.index@ ==> (#[trigger] triangles@[i]) < vertices@.len(),
                vertex_buffer@ =~= expand(vertices@, triangles@.take(it1.index@)),
//@ loop-begin 1
            proof { assert(triangles@.take(it1.index@ + 1) =~= triangles@.take(it1.index@).push(*index)); }
//@ after-loop 1
        proof {
            assert(triangles@.take(triangles@.len() as int) =~= triangles@);
            assert(vertex_buffer@ =~= expand(vertices@, triangles@));
        }
//@ end
//@ fn TMFMesh::get_normal_buffer
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    ensures is_buffer(self@.n, self@.nt, ret),
//@ loop 1
            invariant
                normals_buffer@.len() == it1.index@,
                forall|i: int| 0 <= i < it1.index@ ==> (#[trigger] triangles@[i]) < normals@.len(),
                normals_buffer@ =~= expand(normals@, triangles@.take(it1.index@)),
//@ loop-begin 1
            proof { assert(triangles@.take(it1.index@ + 1) =~= triangles@.take(it1.index@).push(*index)); }
//@ after-loop 1
        proof {
            assert(triangles@.take(triangles@.len() as int) =~= triangles@);
            assert(normals_buffer@ =~= expand(normals@, triangles@));
        }
//@ end
//@ fn TMFMesh::get_uv_buffer
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    ensures is_buffer(self@.u, self@.ut, ret),
//@ loop 1
            invariant
                uv_buffer@.len() == it1.index@,
                forall|i: int| 0 <= i < it1.index@ ==> (#[trigger] triangles@[i]) < uvs@.len(),
                uv_buffer@ =~= expand(uvs@, triangles@.take(it1.index@)),
//@ loop-begin 1
            proof { assert(triangles@.take(it1.index@ + 1) =~= triangles@.take(it1.index@).push(*index)); }
//@ after-loop 1
        proof {
            assert(triangles@.take(triangles@.len() as int) =~= triangles@);
            assert(uv_buffer@ =~= expand(uvs@, triangles@));
        }
//@ end
/// data and indices before and after
pub open spec fn pair_reordered<T>(d: Option<Seq<T>>, t: Option<Seq<IndexType>>, rd: Option<Seq<T>>, rt: Option<Seq<IndexType>>) -> bool {
    match (d, t) {
        (Some(d), Some(t)) => rd is Some && rt is Some && crate::utilis::is_reordered(t, d, rt->Some_0, rd->Some_0),
        _ => rd == d && rt == t,
    }
}
pub open spec fn pair_in<T>(d: Option<Seq<T>>, t: Option<Seq<IndexType>>) -> bool {
    d is Some && t is Some ==> all_in(d->Some_0, t->Some_0)
}
//@ fn TMFMesh::reorder_data
//@ spec
    requires
        pair_in(old(self)@.v, old(self)@.vt), pair_in(old(self)@.n, old(self)@.nt), pair_in(old(self)@.u, old(self)@.ut),
    ensures
        pair_reordered(old(self)@.v, old(self)@.vt, final(self)@.v, final(self)@.vt),
        pair_reordered(old(self)@.n, old(self)@.nt, final(self)@.n, final(self)@.nt),
        pair_reordered(old(self)@.u, old(self)@.ut, final(self)@.u, final(self)@.ut),
        final(self)@ == (MeshV { v: final(self)@.v, vt: final(self)@.vt, n: final(self)@.n, nt: final(self)@.nt, u: final(self)@.u, ut: final(self)@.ut, ..old(self)@ }),
//@ end
/// reordered data expands to the same buffers
pub proof fn lemma_reordered_buffer<T>(d: Option<Seq<T>>, t: Option<Seq<IndexType>>, rd: Option<Seq<T>>, rt: Option<Seq<IndexType>>, b: Option<Box<[T]>>, rb: Option<Box<[T]>>)
    requires pair_in(d, t), pair_reordered(d, t, rd, rt), is_buffer(d, t, b), is_buffer(rd, rt, rb),
    ensures
        ob2(b) == ob2(rb),
        t is Some && rt is Some ==> t->Some_0.len() == rt->Some_0.len(),
{ }
/// after reordering, every element is used, and elements appear in the order of their first use
pub proof fn lemma_reordered_used<T>(d: Seq<T>, t: Seq<IndexType>, rd: Seq<T>, rt: Seq<IndexType>, j: int)
    requires crate::utilis::is_reordered(t, d, rt, rd), t.len() > 0, d.len() > 0, 0 <= j < rd.len(),
    ensures
        exists|i: int| 0 <= i < rt.len() && #[trigger] rt[i] == j,
        j > 0 ==> exists|i: int, k: int| 0 <= k < i < rt.len() && #[trigger] rt[k] == j - 1 && #[trigger] rt[i] == j && forall|l: int| 0 <= l < i ==> #[trigger] rt[l] != j,
{
    crate::utilis::lemma_next_new(rt, j);
    if j > 0 {
        crate::utilis::lemma_first_use(rt, j);
    }
}
pub open spec fn ob2<T>(o: Option<Box<[T]>>) -> Option<Seq<T>> {
    match o { Some(v) => Some(v@), None => None }
}
//@ fn TMFMesh::normalize
//@ spec
    ensures
        final(self)@ == (MeshV { n: final(self)@.n, ..old(self)@ }),
        old(self)@.n is None ==> final(self)@.n is None,
        old(self)@.n matches Some(n) ==> (final(self)@.n matches Some(r) && r.len() == n.len() && forall|i: int| 0 <= i < n.len() ==> #[trigger] crate::utilis::is_normalized(n[i], r[i])),
//@ end
/// the bytes of a name
pub open spec fn nm(s: &str) -> Seq<u8> { s.spec_bytes() }
pub open spec fn named(d: CustomDataSegment, b: Seq<u8>) -> bool { d.name@ == b && d.name_len == b.len() }
/// r is what is first found under the name
pub open spec fn is_lookup(c: Seq<CustomDataSegment>, b: Seq<u8>, r: Option<&CustomData>) -> bool {
    match r {
        Some(d) => exists|i: int| 0 <= i < c.len() && named(#[trigger] c[i], b) && c[i].data == *d && forall|j: int| 0 <= j < i ==> !named(#[trigger] c[j], b),
        None => forall|j: int| 0 <= j < c.len() ==> !named(#[trigger] c[j], b),
    }
}
//@ fn TMFMesh::add_custom_data_seg
//@ spec
    ensures 
        final(self)@ == (MeshV { c: old(self)@.c.push(custom_data), ..old(self)@ }),
        old(self).wf() && custom_data.wf() ==> final(self).wf(),
//@ end
//@ fn TMFMesh::add_custom_data
//@ spec
    ensures
        ret is Ok <==> 1 <= name.spec_bytes().len() <= 255,
        ret is Ok ==> exists|d: CustomDataSegment| #[trigger] named(d, nm(name)) && d.data == custom_data && d.wf() && final(self)@ == (MeshV { c: old(self)@.c.push(d), ..old(self)@ }),
        ret is Err ==> *final(self) == *old(self),
        old(self).wf() ==> final(self).wf(),
        name.spec_bytes().len() > 255 ==> (ret matches Err(e) && e is NameTooLong),
        name.spec_bytes().len() == 0 ==> (ret matches Err(e) && e is NoName),
//@ tail
        proof {
            assert(named(self.custom_data@.last(), nm(name)));
            assert(self.custom_data@ == old(self).custom_data@.push(self.custom_data@.last()));
        }
//@ end
//@ fn TMFMesh::lookup_custom_data
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires self.wf(),
    ensures is_lookup(self@.c, nm(name), ret),
//@ after-let bytes_len
        proof { assert(bytes@ == nm(name) && bytes_len == bytes@.len()); }
//@ loop 1
            invariant forall|j: int| 0 <= j < it1.index@ ==> !named(#[trigger] self.custom_data@[j], nm(name)),
//@ loop-begin 1
            proof { 
                assert(*data == self.custom_data@[it1.index@]); 
                assert(data.name@.subrange(0, data.name@.len() as int) =~= data.name@);
            }
//@ subst `bytes == &data.name_bytes()[..(data.name_len() as usize)]` => `slice_eq(bytes, &data.name_bytes()[..(data.name_len() as usize)])`
//@ end
}
