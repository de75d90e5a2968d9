//@ source src/verify.rs
pub mod verify {
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use crate::*;
use crate::vf::*;
use crate::fl::*;
use crate::mesh::*;
use crate::utilis::*;
//@ item enum TMFIntegrityStatus Debug
impl Clone for TMFIntegrityStatus {
    #[verifier::external_body]
    fn clone(&self) -> Self { unimplemented!() }
}
pub open spec fn idx_ok<T>(d: Option<Seq<T>>, t: Option<Seq<IndexType>>) -> bool {
    t is Some ==> d is Some && all_in(d->Some_0, t->Some_0)
}
pub open spec fn uv_in(p: Vector2) -> bool { fin(p.0) && fin(p.1) && 0real <= rv(p.0) <= 1real && 0real <= rv(p.1) <= 1real }
/// length one up to the tolerance 0.001
pub open spec fn unit(a: Vector3) -> bool { fin3(a) && 0.99799real <= sq3(a) <= 1.00201real }
pub open spec fn unit_strict(a: Vector3) -> bool { fin3(a) && 0.99803real <= sq3(a) <= 1.00199real }
pub open spec fn short<T>(d: Option<Seq<T>>) -> bool { d is Some ==> d->Some_0.len() <= u32::MAX }
pub open spec fn v_ok(m: MeshV) -> bool { idx_ok(m.v, m.vt) }
pub open spec fn n_ok(m: MeshV) -> bool { idx_ok(m.n, m.nt) && (m.n is Some ==> forall|i: int| 0 <= i < m.n->Some_0.len() ==> #[trigger] unit(m.n->Some_0[i])) }
pub open spec fn n_strict(m: MeshV) -> bool { short(m.n) && idx_ok(m.n, m.nt) && (m.n is Some ==> forall|i: int| 0 <= i < m.n->Some_0.len() ==> #[trigger] unit_strict(m.n->Some_0[i])) }
pub open spec fn u_ok(m: MeshV) -> bool { idx_ok(m.u, m.ut) && (m.u is Some ==> forall|i: int| 0 <= i < m.u->Some_0.len() ==> #[trigger] uv_in(m.u->Some_0[i])) }
/// what the integrity check promises
pub open spec fn valid(m: MeshV) -> bool { v_ok(m) && n_ok(m) && u_ok(m) }
/// what suffices to pass it
pub open spec fn valid_strict(m: MeshV) -> bool { v_ok(m) && n_strict(m) && u_ok(m) && short(m.v) && short(m.u) }
/// the expanded buffers of a valid mesh exist
pub proof fn lemma_valid_buffers(m: MeshV, vb: Option<Box<[Vector3]>>, nb: Option<Box<[Vector3]>>, ub: Option<Box<[Vector2]>>)
    requires valid(m), is_buffer(m.v, m.vt, vb), is_buffer(m.n, m.nt, nb), is_buffer(m.u, m.ut, ub),
    ensures
        m.v is Some && m.vt is Some ==> vb is Some && vb->Some_0@ == expand(m.v->Some_0, m.vt->Some_0),
        m.n is Some && m.nt is Some ==> nb is Some && nb->Some_0@ == expand(m.n->Some_0, m.nt->Some_0),
        m.u is Some && m.ut is Some ==> ub is Some && ub->Some_0@ == expand(m.u->Some_0, m.ut->Some_0),
{ }
/// |1 - m| <= 0.001 and m the length of a
pub broadcast proof fn lemma_unit(a: Vector3, one: f32, m: f32, d: f32, e: f32, t: f32, r: bool)
    requires
        #[trigger] is_mag(a, m), #[trigger] sub_ensures::<f32>(one, m, d), #[trigger] call_ensures(f32::abs, (d,), e), #[trigger] le_ensures::<f32>(e, t, r),
        fin(one), rv(one) == 1real, fin(t), 0.000999999real <= rv(t) <= 0.001000001real,
    ensures r ==> unit(a), unit_strict(a) ==> r,
{
    broadcast use {ax_rnd, ax_kinds, ax_le, ax_le_any};
    let s = sq3(a);
    if r {
        assert(fin(e));
        assert(fin(d));
        ax_sub_fin(one, m, d);
        if rabs(1real - rv(m)) > FMAX() { ax_sub_big(one, m, d); assert(false); }
        ax_sub(one, m, d);
        let x = rv(m);
        assert(x <= 1.001001001real && x >= 0.998998999real) by (nonlinear_arith)
            requires rabs(rv(d)) <= 0.001000001real, rv(d) - (1real - x) <= EPS() * rabs(1real - x) + ETA(), (1real - x) - rv(d) <= EPS() * rabs(1real - x) + ETA(),
                EPS() == 1real / 16777216real, ETA() == 0.00000000000000000000000000000000000002real;
        assert(near2(s, x));
        assert(s <= 1.00201real && s >= 0.99799real) by (nonlinear_arith) requires near2(s, x), 0.998998999real <= x <= 1.001001001real;
    }
    if unit_strict(a) {
        assert(fin(m));
        let x = rv(m);
        assert(near2(s, x) && x >= 0real);
        let q = x * x;
        assert(q <= 1.0019911real && q >= 0.9980289real);
        assert(x <= 1.000996real) by (nonlinear_arith) requires x * x <= 1.0019911real, x >= 0real;
        assert(x >= 0.999013real) by (nonlinear_arith) requires x * x >= 0.9980289real, x >= 0real;
        ax_sub(one, m, d);
        assert(rabs(rv(d)) <= 0.000999real) by (nonlinear_arith)
            requires -0.000996real <= 1real - x <= 0.000987real, rv(d) - (1real - x) <= EPS() * rabs(1real - x) + ETA(), (1real - x) - rv(d) <= EPS() * rabs(1real - x) + ETA(),
                EPS() == 1real / 16777216real, ETA() == 0.00000000000000000000000000000000000002real;
    }
}
//@ fn indices_inside_array
//@ spec
    ensures
        ret is None ==> forall|i: int| 0 <= i < array@.len() ==> (#[trigger] array@[i]) < length,
        ret matches Some(x) ==> x >= length && array@.contains(x),
//@ loop 1
        invariant forall|i: int| 0 <= i < it1.index@ ==> (#[trigger] array@[i]) < length,
//@ loop-begin 1
        proof { assert(array@[it1.index@] == *index); }
//@ end
//@ fn verify_vertices
//@ spec
    ensures ret is Ok ==> v_ok(mesh@), v_ok(mesh@) && short(mesh@.v) ==> ret is Ok,
//@ end
//@ fn verify_uvs
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    ensures ret is Ok ==> u_ok(mesh@), u_ok(mesh@) && short(mesh@.u) ==> ret is Ok,
//@ begin
    broadcast use {group_req, ax_le, ax_ge, ax_le_any, ax_ge_any};
    proof { ax_lit(); }
//@ loop 1
        invariant uvs@ == mesh@.u->Some_0, mesh@.u is Some, forall|i: int| 0 <= i < it1.index@ ==> #[trigger] uv_in(uvs@[i]),
//@ loop-begin 1
        proof { assert(uvs@[it1.index@] == *uv); assert(u_ok(mesh@) ==> uv_in(*uv)) by { assert(uv_in(mesh@.u->Some_0[it1.index@]) == uv_in(*uv)); } }
//@ end
//@ fn verify_normals
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    ensures ret is Ok ==> n_ok(mesh@), n_strict(mesh@) ==> ret is Ok,
//@ begin
    broadcast use {group_req, lemma_unit};
    proof { ax_lit(); }
//@ loop 1
        invariant normals@ == mesh@.n->Some_0, mesh@.n is Some, forall|i: int| 0 <= i < it1.index@ ==> #[trigger] unit(normals@[i]),
//@ loop-begin 1
        proof { assert(normals@[it1.index@] == *normal); assert(n_strict(mesh@) ==> unit_strict(*normal)) by { assert(unit_strict(mesh@.n->Some_0[it1.index@]) == unit_strict(*normal)); } }
//@ end
//@ fn verify_tmf_mesh
//@ spec
    ensures ret is Ok ==> valid(mesh@), valid_strict(mesh@) ==> ret is Ok,
//@ end
//@ source src/lib.rs
//@ fn TMFMesh::verify
//@ spec
    ensures ret is Ok ==> valid(self@), valid_strict(self@) ==> ret is Ok,
//@ end
}
