/// Standard library pieces used by unify_data (assumed)
pub mod vu {
use vstd::prelude::*;
use std::collections::HashMap;
use core::cmp::Ordering;
pub open spec fn int_order(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
/// arrays of numbers are equal and hash equal when their elements are
pub axiom fn axiom_array_key<const N: usize>() ensures vstd::std_specs::hash::obeys_key_model::<[u32; N]>();
/// all pairs of a map, each once, in any order
pub open spec fn is_entries<'a, K, V>(s: Seq<(&'a K, &'a V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> entry_of(s, k)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j]
}
pub open spec fn entry_of<'a, K, V>(s: Seq<(&'a K, &'a V)>, k: K) -> bool { exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k }
/// m.iter().collect()
#[verifier::external_body]
pub fn map_entries<'a, K, V>(m: &'a HashMap<K, V>) -> (ret: Vec<(&'a K, &'a V)>)
    ensures is_entries(ret@, m@),
{ m.iter().collect() }
/// n holds the items of o
pub open spec fn same_items<T>(o: Seq<T>, n: Seq<T>) -> bool {
    &&& forall|i: int| 0 <= i < n.len() ==> exists|j: int| 0 <= j < o.len() && #[trigger] o[j] == #[trigger] n[i]
    &&& forall|j: int| 0 <= j < o.len() ==> exists|i: int| 0 <= i < n.len() && #[trigger] o[j] == #[trigger] n[i]
    &&& (forall|i: int, j: int| 0 <= i < j < o.len() ==> #[trigger] o[i] != #[trigger] o[j]) ==> (forall|i: int, j: int| 0 <= i < j < n.len() ==> #[trigger] n[i] != #[trigger] n[j])
}
pub open spec fn is_sorted<T>(n: Seq<T>, key: spec_fn(T) -> int) -> bool { forall|i: int, j: int| 0 <= i < j < n.len() ==> key(#[trigger] n[i]) <= key(#[trigger] n[j]) }
/// [T]::sort_by, for comparisons that compare a number
#[verifier::external_body]
pub fn sort_by_vx<T, F: FnMut(&T, &T) -> Ordering>(v: &mut Vec<T>, f: F, Ghost(key): Ghost<spec_fn(T) -> int>)
    requires
        forall|a: &T, b: &T| #[trigger] f.requires((a, b)),
        forall|a: &T, b: &T, o: Ordering| #[trigger] f.ensures((a, b), o) ==> o == int_order(key(*a), key(*b)),
    ensures
        final(v)@.len() == old(v)@.len(),
        same_items(old(v)@, final(v)@),
        is_sorted(final(v)@, key),
{ v.sort_by(f) }
/// indices.iter().filter_map(|x| x.as_ref())
pub struct Present<'a> { pub it: Vec<&'a [u32]>, pub pos: usize, pub at: Ghost<Seq<int>> }
#[verifier::external_body]
pub fn present<'a>(v: &'a [Option<&'a [u32]>]) -> (ret: Present<'a>)
    ensures
        ret.pos == 0,
        ret.at@.len() == ret.it@.len(),
        forall|j: int| 0 <= j < ret.it@.len() ==> 0 <= (#[trigger] ret.at@[j]) < v@.len() && v@[ret.at@[j]] == Some(ret.it@[j]),
        forall|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]) is Some ==> exists|j: int| 0 <= j < ret.it@.len() && (#[trigger] ret.it@[j])@ == v@[i]->Some_0@,
{ unimplemented!() }
impl<'a> Present<'a> {
    pub fn next(&mut self) -> (ret: Option<&'a [u32]>)
        ensures
            final(self).it == old(self).it, final(self).at == old(self).at,
            old(self).pos < old(self).it@.len() ==> ret == Some(old(self).it@[old(self).pos as int]) && final(self).pos == old(self).pos + 1,
            old(self).pos >= old(self).it@.len() ==> ret is None && final(self).pos == old(self).pos,
    {
        if self.pos < self.it.len() { self.pos = self.pos + 1; Some(self.it[self.pos - 1]) } else { None }
    }
}
/// all remaining arrays equal this one
#[verifier::external_body]
pub fn all_eq(p: Present, first: &[u32]) -> (ret: bool)
    ensures ret <==> forall|j: int| p.pos <= j < p.it@.len() ==> (#[trigger] p.it@[j])@ == first@,
{ p.it[p.pos..].iter().all(|array| *array == first) }
pub trait NonemptyVx { 
    spec fn nonempty(&self) -> bool;
    fn nonempty_vx(self) -> (ret: bool) where Self: Sized ensures ret == self.nonempty(); }
impl<'a, T> NonemptyVx for Option<&'a [T]> {
    open spec fn nonempty(&self) -> bool { *self is Some && (*self)->Some_0@.len() > 0 }
    fn nonempty_vx(self) -> (ret: bool) { match self { Some(data) => !data.is_empty(), None => false } }
}
/// vec![v; n]
#[verifier::external_body]
pub fn vec_of<T: Clone>(v: Vec<T>, n: usize) -> (ret: Vec<Vec<T>>)
    requires v@.len() == 0,
    ensures ret@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] ret@[i])@ == Seq::<T>::empty(),
{ vec![v; n] }
}
//@ source src/unify_data.rs
/// One index array for all attributes
pub mod unify_data {
use vstd::prelude::*;
use std::collections::HashMap;
use crate::*;
use crate::vf::*;
use crate::vu::*;
use crate::mesh::*;
use crate::utilis::{next_new, first_order, lemma_next_new, lemma_next_mono};
/// the i-th indices of all arrays
pub open spec fn tup(idx: Seq<Seq<IndexType>>, i: int) -> Seq<IndexType> { Seq::new(idx.len(), |j: int| idx[j][i]) }
pub open spec fn views(s: Seq<&[IndexType]>) -> Seq<Seq<IndexType>> { Seq::new(s.len(), |j: int| s[j]@) }
/// r numbers the combinations of indices in the order in which they first appear
pub open spec fn numbers(idx: Seq<Seq<IndexType>>, r: Seq<IndexType>) -> bool {
    &&& forall|j: int| 0 <= j < idx.len() ==> (#[trigger] idx[j]).len() == r.len()
    &&& first_order(r, next_new(r))
    &&& forall|i: int, k: int| 0 <= i < r.len() && 0 <= k < r.len() ==> (#[trigger] r[i] == #[trigger] r[k]) == (tup(idx, i) == tup(idx, k))
}
/// there is only one way to do so
pub proof fn theorem_numbers(idx: Seq<Seq<IndexType>>, r: Seq<IndexType>, s: Seq<IndexType>)
    requires numbers(idx, r), numbers(idx, s), r.len() == s.len(),
    ensures r == s,
{
    lemma_numbers(idx, r, s, r.len() as int);
    assert(r.take(r.len() as int) =~= r && s.take(s.len() as int) =~= s);
}
proof fn lemma_numbers(idx: Seq<Seq<IndexType>>, r: Seq<IndexType>, s: Seq<IndexType>, n: int)
    requires numbers(idx, r), numbers(idx, s), r.len() == s.len(), 0 <= n <= r.len(),
    ensures r.take(n) == s.take(n),
    decreases n,
{
    if n > 0 {
        let i = n - 1;
        lemma_numbers(idx, r, s, i);
        let (p, q) = (r.take(i), s.take(i));
        assert(r[i] <= next_new(p) && s[i] <= next_new(q));
        if exists|k: int| 0 <= k < i && r[k] == r[i] {
            let k = choose|k: int| 0 <= k < i && r[k] == r[i];
            assert(tup(idx, k) == tup(idx, i));
            assert(s[k] == s[i]);
            assert(p[k] == q[k]);
        } else {
            if r[i] < next_new(p) {
                lemma_next_new(p, r[i] as int);
                let k = choose|k: int| 0 <= k < p.len() && #[trigger] p[k] == r[i];
                assert(r[k] == r[i]);
            }
            if s[i] < next_new(q) {
                lemma_next_new(q, s[i] as int);
                let k = choose|k: int| 0 <= k < q.len() && #[trigger] q[k] == s[i];
                assert(s[k] == s[i]);
                assert(tup(idx, k) == tup(idx, i));
                assert(r[k] == r[i]);
            }
        }
        assert(r.take(n) =~= p.push(r[i]));
        assert(s.take(n) =~= q.push(s[i]));
    } else {
        assert(r.take(0) =~= s.take(0));
    }
}
/// what the numbers stand for
pub open spec fn is_map(idx: Seq<Seq<IndexType>>, r: Seq<IndexType>, map: Seq<Seq<IndexType>>) -> bool {
    &&& map.len() == idx.len()
    &&& forall|j: int| 0 <= j < map.len() ==> (#[trigger] map[j]).len() == next_new(r)
    &&& forall|j: int, i: int| 0 <= j < map.len() && 0 <= i < r.len() ==> (#[trigger] r[i]) < next_new(r) && (#[trigger] map[j])[r[i] as int] == idx[j][i]
}
/// the keys of the map, by their numbers
pub open spec fn is_keys<const N: usize>(m: Map<[IndexType; N], usize>, keys: Seq<[IndexType; N]>) -> bool {
    &&& forall|k: int| 0 <= k < keys.len() ==> m.contains_key(#[trigger] keys[k]) && m[keys[k]] == k
    &&& forall|c: [IndexType; N]| #[trigger] m.contains_key(c) ==> m[c] < keys.len() && keys[m[c] as int] == c
}
/// the numbers given so far
pub open spec fn is_news<const N: usize>(news: Seq<IndexType>, idx: Seq<Seq<IndexType>>, keys: Seq<[IndexType; N]>, n: int) -> bool {
    &&& news.len() == n
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] news[i]) < keys.len() && keys[news[i] as int]@ == tup(idx, i)
    &&& first_order(news, keys.len())
}
pub open spec fn has(s: Seq<usize>, v: int) -> bool { exists|a: int| 0 <= a < s.len() && #[trigger] s[a] == v }
/// increasing numbers, among which is everything below n and nothing else
proof fn lemma_all_below(s: Seq<usize>, n: int, i: int)
    requires
        forall|a: int, b: int| 0 <= a < b < s.len() ==> #[trigger] s[a] < #[trigger] s[b],
        forall|a: int| 0 <= a < s.len() ==> #[trigger] s[a] < n,
        forall|v: int| 0 <= v < n ==> #[trigger] has(s, v),
        0 <= i <= s.len(), n >= 0,
    ensures forall|a: int| 0 <= a < i ==> #[trigger] s[a] == a, i == s.len() ==> n == i,
    decreases i,
{
    if i > 0 {
        lemma_all_below(s, n, i - 1);
        if s[i - 1] != i - 1 {
            if s[i - 1] < i - 1 { assert(s[s[i - 1] as int] == s[i - 1]); }
            assert(has(s, i - 1));
            let a = choose|a: int| 0 <= a < s.len() && #[trigger] s[a] == i - 1;
            assert(false);
        }
    }
    if i == s.len() && n > i {
        assert(has(s, i));
        let a = choose|a: int| 0 <= a < s.len() && #[trigger] s[a] == i;
        assert(s[a] == a);
    }
}
/// nd and r hold what d and t held, with nothing unused
pub open spec fn merged<T>(d: Seq<T>, t: Seq<IndexType>, nd: Seq<T>, r: Seq<IndexType>) -> bool {
    all_in(nd, r) && expand(nd, r) =~= expand(d, t) && nd.len() == next_new(r) && r.len() == t.len()
}
proof fn lemma_merged<T>(idx: Seq<Seq<IndexType>>, r: Seq<IndexType>, map: Seq<Seq<IndexType>>, j: int, d: Seq<T>, nd: Seq<T>)
    requires
        numbers(idx, r), is_map(idx, r, map), 0 <= j < idx.len(), all_in(d, idx[j]),
        nd.len() == map[j].len(), forall|k: int| 0 <= k < map[j].len() && map[j][k] < d.len() ==> nd[k] == d[#[trigger] map[j][k] as int],
    ensures merged(d, idx[j], nd, r),
{
    assert(map[j].len() == next_new(r) && idx[j].len() == r.len());
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]) < nd.len() && nd[r[i] as int] == d[idx[j][i] as int] by {
        assert(map[j][r[i] as int] == idx[j][i]);
        assert(idx[j][i] < d.len());
    }
}
/// every number stands for an index
proof fn lemma_map_in<T>(idx: Seq<Seq<IndexType>>, r: Seq<IndexType>, map: Seq<Seq<IndexType>>, j: int, d: Seq<T>)
    requires numbers(idx, r), is_map(idx, r, map), 0 <= j < idx.len(), all_in(d, idx[j]),
    ensures all_in(d, map[j]),
{
    assert(map[j].len() == next_new(r) && idx[j].len() == r.len());
    assert forall|k: int| 0 <= k < map[j].len() implies (#[trigger] map[j][k]) < d.len() by {
        lemma_next_new(r, k);
        let i = choose|i: int| 0 <= i < r.len() && #[trigger] r[i] == k;
        assert(map[j][r[i] as int] == idx[j][i]);
    }
}
pub open spec fn osl<T>(o: Option<&[T]>) -> Option<Seq<T>> { match o { Some(v) => Some(v@), None => None } }
pub open spec fn obx<T>(o: Option<Box<[T]>>) -> Option<Seq<T>> { match o { Some(v) => Some(v@), None => None } }
/// an attribute with data and indices
pub open spec fn live<T>(d: Option<Seq<T>>, t: Option<Seq<IndexType>>) -> bool { d is Some && t is Some && d->Some_0.len() > 0 }
pub open spec fn both<T>(d: Option<Seq<T>>, t: Option<Seq<IndexType>>) -> bool { d is Some && t is Some }
pub open spec fn agree(x: bool, t: Option<Seq<IndexType>>, y: bool, u: Option<Seq<IndexType>>) -> bool { x && y ==> t == u }
pub open spec fn same_len(x: bool, t: Option<Seq<IndexType>>, y: bool, u: Option<Seq<IndexType>>) -> bool { x && y ==> t->Some_0.len() == u->Some_0.len() }
/// what becomes of one attribute
pub open spec fn outcome<T>(d: Option<Seq<T>>, t: Option<Seq<IndexType>>, o: Option<Seq<T>>, r: Option<Seq<IndexType>>) -> bool {
    match o {
        Some(nd) => live(d, t) && r is Some && merged(d->Some_0, t->Some_0, nd, r->Some_0),
        None => r is Some ==> !live(d, t),
    }
}
pub open spec fn differ(x: bool, t: Option<Seq<IndexType>>, y: bool, u: Option<Seq<IndexType>>) -> bool { x && y && t != u }
/// an attribute that may be merged
pub open spec fn mergeable<T>(d: Option<Seq<T>>, t: Option<Seq<IndexType>>) -> bool {
    both(d, t) ==> all_in(d->Some_0, t->Some_0) && t->Some_0.len() <= u32::MAX
}
/// the index arrays to merge
pub open spec fn took(x: bool, t: Option<Seq<IndexType>>) -> Seq<Seq<IndexType>> {
    if x { seq![t->Some_0] } else { seq![] }
}
//@ item type OBoxArr
proof fn lemma_empty<const N: usize>(m: Map<[IndexType; N], usize>, keys: Seq<[IndexType; N]>, news: Seq<IndexType>, idx: Seq<Seq<IndexType>>)
    requires m == Map::<[IndexType; N], usize>::empty(), keys.len() == 0, news.len() == 0,
    ensures is_keys(m, keys), is_news(news, idx, keys, 0),
{ }
proof fn lemma_keys_step<const N: usize>(m: Map<[IndexType; N], usize>, keys: Seq<[IndexType; N]>, c: [IndexType; N])
    requires is_keys(m, keys), keys.len() < usize::MAX,
    ensures
        m.contains_key(c) ==> m[c] < keys.len() && keys[m[c] as int] == c,
        !m.contains_key(c) ==> is_keys(m.insert(c, keys.len() as usize), keys.push(c)),
{
    if !m.contains_key(c) {
        let (n, ks) = (m.insert(c, keys.len() as usize), keys.push(c));
        assert forall|k: int| 0 <= k < ks.len() implies n.contains_key(#[trigger] ks[k]) && n[ks[k]] == k by { if k < keys.len() { assert(m.contains_key(keys[k])); } }
        assert forall|d: [IndexType; N]| #[trigger] n.contains_key(d) implies n[d] < ks.len() && ks[n[d] as int] == d by { if d != c { assert(m.contains_key(d)); } }
    }
}
proof fn lemma_news_step<const N: usize>(news: Seq<IndexType>, idx: Seq<Seq<IndexType>>, keys: Seq<[IndexType; N]>, n: int, c: [IndexType; N], id: IndexType, nkeys: Seq<[IndexType; N]>)
    requires
        is_news(news, idx, keys, n), c@ == tup(idx, n), n >= 0,
        id < keys.len() && nkeys == keys && keys[id as int] == c || id == keys.len() && nkeys == keys.push(c),
    ensures is_news(news.push(id), idx, nkeys, n + 1),
{
    let r = news.push(id);
    assert(r.drop_last() =~= news);
    assert(r.take(news.len() as int) =~= news);
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]) <= next_new(r.take(i)) by {
        if i < news.len() { assert(r.take(i) =~= news.take(i)); assert(news[i] <= next_new(news.take(i))); }
    }
    assert forall|i: int| 0 <= i < n + 1 implies (#[trigger] r[i]) < nkeys.len() && nkeys[r[i] as int]@ == tup(idx, i) by {
        if i < n { assert(r[i] == news[i]); }
    }
}
/// sorted by number, they are the keys
proof fn lemma_sorted<'a, const N: usize>(s: Seq<(&'a [IndexType; N], &'a usize)>, m: Map<[IndexType; N], usize>, keys: Seq<[IndexType; N]>)
    requires is_keys(m, keys), is_entries(s, m), forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).1 <= *(#[trigger] s[j]).1,
    ensures s.len() == keys.len(), forall|k: int| 0 <= k < keys.len() ==> *(#[trigger] s[k]).0 == keys[k],
{
    let v = Seq::new(s.len(), |i: int| *s[i].1);
    assert forall|a: int, b: int| 0 <= a < b < v.len() implies #[trigger] v[a] < #[trigger] v[b] by {
        let (x, y) = (s[a], s[b]);
        assert(m.contains_key(*x.0) && m.contains_key(*y.0));
        if *x.1 == *y.1 { assert(*x.0 == *y.0); assert(s[a] == s[b]); }
    }
    assert forall|a: int| 0 <= a < v.len() implies #[trigger] v[a] < keys.len() by { assert(m.contains_key(*s[a].0)); }
    assert forall|k: int| 0 <= k < keys.len() implies #[trigger] has(v, k) by {
        assert(m.contains_key(keys[k]));
        assert(entry_of(s, keys[k]));
        let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == keys[k];
        assert(v[i] == k);
    }
    lemma_all_below(v, keys.len() as int, s.len() as int);
    assert forall|k: int| 0 <= k < keys.len() implies *(#[trigger] s[k]).0 == keys[k] by { assert(v[k] == k); assert(m.contains_key(*s[k].0)); }
}
proof fn lemma_same_entries<'a, const N: usize>(o: Seq<(&'a [IndexType; N], &'a usize)>, n: Seq<(&'a [IndexType; N], &'a usize)>, m: Map<[IndexType; N], usize>)
    requires is_entries(o, m), same_items(o, n),
    ensures is_entries(n, m),
{
    assert forall|i: int| 0 <= i < n.len() implies m.contains_key(*(#[trigger] n[i]).0) && m[*n[i].0] == *n[i].1 by {
        let j = choose|j: int| 0 <= j < o.len() && #[trigger] o[j] == n[i];
        assert(m.contains_key(*o[j].0));
    }
    assert forall|k: [IndexType; N]| #[trigger] m.contains_key(k) implies entry_of(n, k) by {
        assert(entry_of(o, k));
        let j = choose|j: int| 0 <= j < o.len() && *(#[trigger] o[j]).0 == k;
        let i = choose|i: int| 0 <= i < n.len() && o[j] == #[trigger] n[i];
        assert(*n[i].0 == k);
    }
}
pub open spec fn firsts<'a, 'b, const N: usize>(o: Seq<&'b &'a [IndexType; N]>, e: Seq<(&'a [IndexType; N], &'a usize)>) -> bool { forall|k: int| 0 <= k < o.len() ==> **(#[trigger] o[k]) == *e[k].0 }
pub open spec fn columns<const N: usize>(o: Seq<Box<[IndexType]>>, keys: Seq<[IndexType; N]>) -> bool { forall|j: int| 0 <= j < o.len() ==> (#[trigger] o[j])@ == column(keys, j, keys.len() as int) }
/// column j of the keys
pub open spec fn column<const N: usize>(keys: Seq<[IndexType; N]>, j: int, n: int) -> Seq<IndexType> { Seq::new(n as nat, |k: int| keys[k]@[j]) }
proof fn lemma_common<const N: usize>(idx: Seq<Seq<IndexType>>, m: Map<[IndexType; N], usize>, keys: Seq<[IndexType; N]>, r: Seq<IndexType>, map: Seq<Seq<IndexType>>)
    requires
        idx.len() == N, forall|j: int| 0 <= j < idx.len() ==> (#[trigger] idx[j]).len() == r.len(),
        is_keys(m, keys), is_news(r, idx, keys, r.len() as int),
        map.len() == N, forall|j: int| 0 <= j < N ==> (#[trigger] map[j]) == column(keys, j, keys.len() as int),
    ensures numbers(idx, r), is_map(idx, r, map),
{
    assert forall|i: int, k: int| 0 <= i < r.len() && 0 <= k < r.len() implies (#[trigger] r[i] == #[trigger] r[k]) == (tup(idx, i) == tup(idx, k)) by {
        let (x, y) = (keys[r[i] as int], keys[r[k] as int]);
        assert(m.contains_key(x) && m.contains_key(y));
        if x@ == y@ { assert(x =~= y); }
    }
    assert forall|j: int, i: int| 0 <= j < map.len() && 0 <= i < r.len() implies (#[trigger] r[i]) < next_new(r) && (#[trigger] map[j])[r[i] as int] == idx[j][i] by {
        assert(keys[r[i] as int]@ == tup(idx, i));
        assert(tup(idx, i)[j] == idx[j][i]);
    }
}
//@ fn unfiy_data_common
//@ spec
    requires
        indices@.len() == DATA_COUNT, DATA_COUNT >= 1,
        forall|j: int| 0 <= j < indices@.len() ==> (#[trigger] indices@[j])@.len() == indices@[0]@.len(),
        indices@[0]@.len() <= u32::MAX,
    ensures
        ret.0@.len() == indices@[0]@.len(),
        numbers(views(indices@), ret.0@),
        is_map(views(indices@), ret.0@, Seq::new(ret.1@.len(), |j: int| ret.1@[j]@)),
//@ begin
    hide(is_entries); hide(same_items); hide(is_keys); hide(numbers); hide(is_map); hide(is_news);
    let ghost idx = views(indices@);
    let ghost mut keys: Seq<[IndexType; DATA_COUNT]> = Seq::empty();
    proof { axiom_array_key::<DATA_COUNT>(); }
    broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ before-loop 2
    proof { lemma_empty(combos@, keys, new_indices@, idx); }
//@ loop 1
        invariant
            forall|j: int| 0 <= j < indices@.len() ==> (#[trigger] indices@[j])@.len() == indices@[0]@.len(),
            it1.seq() == indices@.map_values(|x: &[IndexType]| &x), len == indices@[0]@.len(),
//@ loop 2
        invariant
            vstd::std_specs::hash::obeys_key_model::<[u32; DATA_COUNT]>(), vstd::std_specs::hash::builds_valid_hashers::<std::hash::RandomState>(),
            indices@.len() == DATA_COUNT, len <= u32::MAX, idx == views(indices@),
            forall|j: int| 0 <= j < indices@.len() ==> (#[trigger] indices@[j])@.len() == len,
            combo_id == keys.len(), keys.len() <= index, is_keys(combos@, keys),
            is_news(new_indices@, idx, keys, index as int), new_indices@.len() == index,
//@ loop-begin 2
        let ghost news = new_indices@;
        let ghost keys0 = keys;
        let ghost m0 = combos@;
//@ loop 3
            invariant
                indices@.len() == DATA_COUNT, index < len,
                forall|j: int| 0 <= j < indices@.len() ==> (#[trigger] indices@[j])@.len() == len,
                forall|j: int| 0 <= j < sub_index ==> curr_combo@[j] == indices@[j]@[index as int],
//@ after-loop 3
        proof { 
            assert(curr_combo@ =~= tup(idx, index as int)); 
            lemma_keys_step(m0, keys0, curr_combo);
        }
//@ after-let curr_id
        proof { if !m0.contains_key(curr_combo) { keys = keys.push(curr_combo); } }
//@ loop-end 2
        proof { lemma_news_step(news, idx, keys0, index as int, curr_combo, curr_id as IndexType, keys); }
//@ after-loop 2
    let ghost m = combos@;
    let ghost r = new_indices@;
//@ after-let combos #2
    let ghost e0 = combos@;
//@ before-loop 4
    let ghost e = combos@;
    proof {
        lemma_same_entries(e0, e, m);
        lemma_sorted(e, m, keys);
    }
//@ loop 4
        invariant
            out4@.len() == it4.index@, it4.seq() == e.map_values(|x: (&[IndexType; DATA_COUNT], &usize)| &x),
            firsts(out4@, e),
//@ before-loop 5
    let ghost sorted = combos@;
//@ loop 5
        invariant
            it5.seq().len() == keys.len(), forall|k: int| 0 <= k < keys.len() ==> ***(#[trigger] it5.seq()[k]) == keys[k],
            data_map@.len() == DATA_COUNT,
            forall|j: int| 0 <= j < DATA_COUNT ==> (#[trigger] data_map@[j])@ == column(keys, j, it5.index@),
//@ loop-begin 5
        let ghost c = it5.index@;
//@ loop 6
            invariant
                ***combo == keys[c], c < keys.len(), c >= 0,
                data_map@.len() == DATA_COUNT,
                forall|j: int| 0 <= j < i ==> (#[trigger] data_map@[j])@ == column(keys, j, c + 1),
                forall|j: int| i <= j < DATA_COUNT ==> (#[trigger] data_map@[j])@ == column(keys, j, c),
//@ loop-end 7
        proof { 
            assert(v == &data_map@[it7.index@ as int]);
            assert(item7@ =~= column(keys, it7.index@ as int, keys.len() as int)); }
//@ loop 7
        invariant
            out7@.len() == it7.index@, data_map@.len() == DATA_COUNT, it7.seq().len() == data_map@.len(), forall|j: int| 0 <= j < data_map@.len() ==> *(#[trigger] it7.seq()[j]) == data_map@[j],
            forall|j: int| 0 <= j < DATA_COUNT ==> (#[trigger] data_map@[j])@ == column(keys, j, keys.len() as int),
            columns(out7@, keys),
//@ tail
    proof {
        let map = Seq::new(data_map@.len(), |j: int| data_map@[j]@);
        lemma_common(idx, m, keys, r, map);
    }
//@ subst `(*v).clone()` => `(*v).clone_vx()`
//@ subst `combos.iter().collect::<Vec<_>>()` => `crate::vu::map_entries(&combos)`
//@ subst `combos.sort_by(|a, b| a.1.cmp(b.1))` => `crate::vu::sort_by_vx(&mut combos, |a: &(&[IndexType; DATA_COUNT], &usize), b: &(&[IndexType; DATA_COUNT], &usize)| -> (o: core::cmp::Ordering) ensures o == int_order(*a.1 as int, *b.1 as int) { a.1.cmp(b.1) }, Ghost(|e: (&[IndexType; DATA_COUNT], &usize)| *e.1 as int))`
//@ subst `vec![Vec::with_capacity(len); DATA_COUNT]` => `crate::vu::vec_of(Vec::with_capacity(len), DATA_COUNT)`
//@ end
//@ fn merge_data_2
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires
        forall|j: int| 0 <= j < indices@.len() ==> (#[trigger] indices@[j])@.len() == indices@[0]@.len(), indices@[0]@.len() <= u32::MAX,
        all_in(a@, indices@[0]@),
        all_in(b@, indices@[1]@),
    ensures
        numbers(seq![indices@[0]@, indices@[1]@], ret.0@),
        merged(a@, indices@[0]@, ret.1@, ret.0@),
        merged(b@, indices@[1]@, ret.2@, ret.0@),
//@ begin
    let ghost idx = views(indices@);
    proof { assert(idx =~= seq![indices@[0]@, indices@[1]@]); }
//@ after-let index_map
        let ghost map = Seq::new(index_map@.len(), |j: int| index_map@[j]@);
        let ghost (d0, d1) = (a@, b@);
        proof {
            lemma_map_in(idx, indices@, map, 0, d0);
            lemma_map_in(idx, indices@, map, 1, d1);
        }
//@ loop 1
            invariant
                out1@.len() == it1.index@, it1.seq() == index_map@[0]@.map_values(|x: u32| &x),
                forall|k: int| 0 <= k < it1.index@ ==> #[trigger] out1@[k] == d0[map[0][k] as int],
//@ loop 2
            invariant
                out2@.len() == it2.index@, it2.seq() == index_map@[1]@.map_values(|x: u32| &x),
                forall|k: int| 0 <= k < it2.index@ ==> #[trigger] out2@[k] == d1[map[1][k] as int],
//@ tail
        proof {
            lemma_merged(idx, indices@, map, 0, d0, a@);
            lemma_merged(idx, indices@, map, 1, d1, b@);
        }
//@ end
//@ fn merge_data_3
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires
        forall|j: int| 0 <= j < indices@.len() ==> (#[trigger] indices@[j])@.len() == indices@[0]@.len(), indices@[0]@.len() <= u32::MAX,
        all_in(a@, indices@[0]@),
        all_in(b@, indices@[1]@),
        all_in(c@, indices@[2]@),
    ensures
        numbers(seq![indices@[0]@, indices@[1]@, indices@[2]@], ret.0@),
        merged(a@, indices@[0]@, ret.1@, ret.0@),
        merged(b@, indices@[1]@, ret.2@, ret.0@),
        merged(c@, indices@[2]@, ret.3@, ret.0@),
//@ begin
    let ghost idx = views(indices@);
    proof { assert(idx =~= seq![indices@[0]@, indices@[1]@, indices@[2]@]); }
//@ after-let index_map
        let ghost map = Seq::new(index_map@.len(), |j: int| index_map@[j]@);
        let ghost (d0, d1, d2) = (a@, b@, c@);
        proof {
            lemma_map_in(idx, indices@, map, 0, d0);
            lemma_map_in(idx, indices@, map, 1, d1);
            lemma_map_in(idx, indices@, map, 2, d2);
        }
//@ loop 1
            invariant
                out1@.len() == it1.index@, it1.seq() == index_map@[0]@.map_values(|x: u32| &x),
                forall|k: int| 0 <= k < it1.index@ ==> #[trigger] out1@[k] == d0[map[0][k] as int],
//@ loop 2
            invariant
                out2@.len() == it2.index@, it2.seq() == index_map@[1]@.map_values(|x: u32| &x),
                forall|k: int| 0 <= k < it2.index@ ==> #[trigger] out2@[k] == d1[map[1][k] as int],
//@ loop 3
            invariant
                out3@.len() == it3.index@, it3.seq() == index_map@[2]@.map_values(|x: u32| &x),
                forall|k: int| 0 <= k < it3.index@ ==> #[trigger] out3@[k] == d2[map[2][k] as int],
//@ tail
        proof {
            lemma_merged(idx, indices@, map, 0, d0, a@);
            lemma_merged(idx, indices@, map, 1, d1, b@);
            lemma_merged(idx, indices@, map, 2, d2, c@);
        }
//@ end
//@ fn merge_data_4
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires
        forall|j: int| 0 <= j < indices@.len() ==> (#[trigger] indices@[j])@.len() == indices@[0]@.len(), indices@[0]@.len() <= u32::MAX,
        all_in(a@, indices@[0]@),
        all_in(b@, indices@[1]@),
        all_in(c@, indices@[2]@),
        all_in(d@, indices@[3]@),
    ensures
        numbers(seq![indices@[0]@, indices@[1]@, indices@[2]@, indices@[3]@], ret.0@),
        merged(a@, indices@[0]@, ret.1@, ret.0@),
        merged(b@, indices@[1]@, ret.2@, ret.0@),
        merged(c@, indices@[2]@, ret.3@, ret.0@),
        merged(d@, indices@[3]@, ret.4@, ret.0@),
//@ begin
    let ghost idx = views(indices@);
    proof { assert(idx =~= seq![indices@[0]@, indices@[1]@, indices@[2]@, indices@[3]@]); }
//@ after-let index_map
        let ghost map = Seq::new(index_map@.len(), |j: int| index_map@[j]@);
        let ghost (d0, d1, d2, d3) = (a@, b@, c@, d@);
        proof {
            lemma_map_in(idx, indices@, map, 0, d0);
            lemma_map_in(idx, indices@, map, 1, d1);
            lemma_map_in(idx, indices@, map, 2, d2);
            lemma_map_in(idx, indices@, map, 3, d3);
        }
//@ loop 1
            invariant
                out1@.len() == it1.index@, it1.seq() == index_map@[0]@.map_values(|x: u32| &x),
                forall|k: int| 0 <= k < it1.index@ ==> #[trigger] out1@[k] == d0[map[0][k] as int],
//@ loop 2
            invariant
                out2@.len() == it2.index@, it2.seq() == index_map@[1]@.map_values(|x: u32| &x),
                forall|k: int| 0 <= k < it2.index@ ==> #[trigger] out2@[k] == d1[map[1][k] as int],
//@ loop 3
            invariant
                out3@.len() == it3.index@, it3.seq() == index_map@[2]@.map_values(|x: u32| &x),
                forall|k: int| 0 <= k < it3.index@ ==> #[trigger] out3@[k] == d2[map[2][k] as int],
//@ loop 4
            invariant
                out4@.len() == it4.index@, it4.seq() == index_map@[3]@.map_values(|x: u32| &x),
                forall|k: int| 0 <= k < it4.index@ ==> #[trigger] out4@[k] == d3[map[3][k] as int],
//@ tail
        proof {
            lemma_merged(idx, indices@, map, 0, d0, a@);
            lemma_merged(idx, indices@, map, 1, d1, b@);
            lemma_merged(idx, indices@, map, 2, d2, c@);
            lemma_merged(idx, indices@, map, 3, d3, d@);
        }
//@ end
//@ fn is_merge_needed
//@ spec
    ensures
        !ret ==> forall|j: int, k: int| 0 <= j < indices@.len() && 0 <= k < indices@.len() && (#[trigger] indices@[j]) is Some && (#[trigger] indices@[k]) is Some ==> indices@[j]->Some_0@ == indices@[k]->Some_0@,
        ret ==> exists|j: int, k: int| 0 <= j < indices@.len() && 0 <= k < indices@.len() && (#[trigger] indices@[j]) is Some && (#[trigger] indices@[k]) is Some && indices@[j]->Some_0@ != indices@[k]->Some_0@,
//@ after-let index_iter
    let ghost all = index_iter;
//@ ret-bind
    proof {
        if ret__ {
            let j = choose|j: int| 0 <= j < all.it@.len() && (#[trigger] all.it@[j])@ != all.it@[0]@;
            let (x, y) = (all.at@[0], all.at@[j]);
            assert(indices@[x] is Some && indices@[y] is Some);
        }
    }
//@ subst `indices.iter().filter_map(|x| x.as_ref())` => `crate::vu::present(indices)`
//@ subst `index_iter.all(|array| *array == *first)` => `crate::vu::all_eq(index_iter, first)`
//@ end
//@ fn smart_merge_data_2
//@ spec
    requires
        mergeable(osl(a), osl(indices@[0])),
        mergeable(osl(b), osl(indices@[1])),
        same_len(both(osl(a), osl(indices@[0])), osl(indices@[0]), both(osl(b), osl(indices@[1])), osl(indices@[1])),
    ensures
        outcome(osl(a), osl(indices@[0]), obx(ret.0), obx(ret.2)),
        outcome(osl(b), osl(indices@[1]), obx(ret.1), obx(ret.2)),
        ret.2 is None ==> agree(live(osl(a), osl(indices@[0])), osl(indices@[0]), live(osl(b), osl(indices@[1])), osl(indices@[1])),
        ret.2 is Some ==> numbers(took(live(osl(a), osl(indices@[0])), osl(indices@[0])) + took(live(osl(b), osl(indices@[1])), osl(indices@[1])), ret.2->Some_0@),
        ret.2 is Some ==> differ(live(osl(a), osl(indices@[0])), osl(indices@[0]), live(osl(b), osl(indices@[1])), osl(indices@[1])),
//@ ret-bind
        proof {
            let x0 = live(osl(a), osl(indices@[0]));
            let l0 = took(x0, osl(indices@[0]));
            let x1 = live(osl(b), osl(indices@[1]));
            let l1 = took(x1, osl(indices@[1]));
            if !x0 { assert(l0 + l1 =~= l1); }
            if !x1 { assert(l0 + l1 =~= l0); }
            if x0 && x1 { assert(l0 + l1 =~= seq![indices@[0]->Some_0@, indices@[1]->Some_0@]); }
        }
//@ before `let (indices, a, b)`
        proof {
            if a@.len() == 0 || b@.len() == 0 {
                assert(indices_a@ =~= indices_b@) by { if a@.len() == 0 { assert(indices_a@.len() == 0) by { if indices_a@.len() > 0 { assert(indices_a@[0] < a@.len()); } } } else if indices_b@.len() > 0 { assert(indices_b@[0] < b@.len()); } }
            }
        }
//@ end
//@ fn smart_merge_data_3
//@ spec
    requires
        mergeable(osl(a), osl(indices@[0])),
        mergeable(osl(b), osl(indices@[1])),
        mergeable(osl(c), osl(indices@[2])),
        same_len(both(osl(a), osl(indices@[0])), osl(indices@[0]), both(osl(b), osl(indices@[1])), osl(indices@[1])),
        same_len(both(osl(a), osl(indices@[0])), osl(indices@[0]), both(osl(c), osl(indices@[2])), osl(indices@[2])),
        same_len(both(osl(b), osl(indices@[1])), osl(indices@[1]), both(osl(c), osl(indices@[2])), osl(indices@[2])),
    ensures
        outcome(osl(a), osl(indices@[0]), obx(ret.0), obx(ret.3)),
        outcome(osl(b), osl(indices@[1]), obx(ret.1), obx(ret.3)),
        outcome(osl(c), osl(indices@[2]), obx(ret.2), obx(ret.3)),
        ret.3 is None ==> agree(live(osl(a), osl(indices@[0])), osl(indices@[0]), live(osl(b), osl(indices@[1])), osl(indices@[1])),
        ret.3 is None ==> agree(live(osl(a), osl(indices@[0])), osl(indices@[0]), live(osl(c), osl(indices@[2])), osl(indices@[2])),
        ret.3 is None ==> agree(live(osl(b), osl(indices@[1])), osl(indices@[1]), live(osl(c), osl(indices@[2])), osl(indices@[2])),
        ret.3 is Some ==> numbers(took(live(osl(a), osl(indices@[0])), osl(indices@[0])) + took(live(osl(b), osl(indices@[1])), osl(indices@[1])) + took(live(osl(c), osl(indices@[2])), osl(indices@[2])), ret.3->Some_0@),
        ret.3 is Some ==> differ(live(osl(a), osl(indices@[0])), osl(indices@[0]), live(osl(b), osl(indices@[1])), osl(indices@[1])) || differ(live(osl(a), osl(indices@[0])), osl(indices@[0]), live(osl(c), osl(indices@[2])), osl(indices@[2])) || differ(live(osl(b), osl(indices@[1])), osl(indices@[1]), live(osl(c), osl(indices@[2])), osl(indices@[2])),
//@ ret-bind
        proof {
            let x0 = live(osl(a), osl(indices@[0]));
            let l0 = took(x0, osl(indices@[0]));
            let x1 = live(osl(b), osl(indices@[1]));
            let l1 = took(x1, osl(indices@[1]));
            let x2 = live(osl(c), osl(indices@[2]));
            let l2 = took(x2, osl(indices@[2]));
            if !x0 { assert(l0 + l1 + l2 =~= l1 + l2); }
            if !x1 { assert(l0 + l1 + l2 =~= l0 + l2); }
            if !x2 { assert(l0 + l1 + l2 =~= l0 + l1); }
            if x0 && x1 && x2 { assert(l0 + l1 + l2 =~= seq![indices@[0]->Some_0@, indices@[1]->Some_0@, indices@[2]->Some_0@]); }
        }
//@ subst `is_some_and(|data| !data.is_empty())` => `nonempty_vx()`
//@ end
//@ fn smart_merge_data_4
//@ spec
    requires
        mergeable(osl(a), osl(indices@[0])),
        mergeable(osl(b), osl(indices@[1])),
        mergeable(osl(c), osl(indices@[2])),
        mergeable(osl(d), osl(indices@[3])),
        same_len(both(osl(a), osl(indices@[0])), osl(indices@[0]), both(osl(b), osl(indices@[1])), osl(indices@[1])),
        same_len(both(osl(a), osl(indices@[0])), osl(indices@[0]), both(osl(c), osl(indices@[2])), osl(indices@[2])),
        same_len(both(osl(a), osl(indices@[0])), osl(indices@[0]), both(osl(d), osl(indices@[3])), osl(indices@[3])),
        same_len(both(osl(b), osl(indices@[1])), osl(indices@[1]), both(osl(c), osl(indices@[2])), osl(indices@[2])),
        same_len(both(osl(b), osl(indices@[1])), osl(indices@[1]), both(osl(d), osl(indices@[3])), osl(indices@[3])),
        same_len(both(osl(c), osl(indices@[2])), osl(indices@[2]), both(osl(d), osl(indices@[3])), osl(indices@[3])),
    ensures
        outcome(osl(a), osl(indices@[0]), obx(ret.0), obx(ret.4)),
        outcome(osl(b), osl(indices@[1]), obx(ret.1), obx(ret.4)),
        outcome(osl(c), osl(indices@[2]), obx(ret.2), obx(ret.4)),
        outcome(osl(d), osl(indices@[3]), obx(ret.3), obx(ret.4)),
        ret.4 is None ==> agree(live(osl(a), osl(indices@[0])), osl(indices@[0]), live(osl(b), osl(indices@[1])), osl(indices@[1])),
        ret.4 is None ==> agree(live(osl(a), osl(indices@[0])), osl(indices@[0]), live(osl(c), osl(indices@[2])), osl(indices@[2])),
        ret.4 is None ==> agree(live(osl(a), osl(indices@[0])), osl(indices@[0]), live(osl(d), osl(indices@[3])), osl(indices@[3])),
        ret.4 is None ==> agree(live(osl(b), osl(indices@[1])), osl(indices@[1]), live(osl(c), osl(indices@[2])), osl(indices@[2])),
        ret.4 is None ==> agree(live(osl(b), osl(indices@[1])), osl(indices@[1]), live(osl(d), osl(indices@[3])), osl(indices@[3])),
        ret.4 is None ==> agree(live(osl(c), osl(indices@[2])), osl(indices@[2]), live(osl(d), osl(indices@[3])), osl(indices@[3])),
        ret.4 is Some ==> numbers(took(live(osl(a), osl(indices@[0])), osl(indices@[0])) + took(live(osl(b), osl(indices@[1])), osl(indices@[1])) + took(live(osl(c), osl(indices@[2])), osl(indices@[2])) + took(live(osl(d), osl(indices@[3])), osl(indices@[3])), ret.4->Some_0@),
        ret.4 is Some ==> differ(live(osl(a), osl(indices@[0])), osl(indices@[0]), live(osl(b), osl(indices@[1])), osl(indices@[1])) || differ(live(osl(a), osl(indices@[0])), osl(indices@[0]), live(osl(c), osl(indices@[2])), osl(indices@[2])) || differ(live(osl(a), osl(indices@[0])), osl(indices@[0]), live(osl(d), osl(indices@[3])), osl(indices@[3])) || differ(live(osl(b), osl(indices@[1])), osl(indices@[1]), live(osl(c), osl(indices@[2])), osl(indices@[2])) || differ(live(osl(b), osl(indices@[1])), osl(indices@[1]), live(osl(d), osl(indices@[3])), osl(indices@[3])) || differ(live(osl(c), osl(indices@[2])), osl(indices@[2]), live(osl(d), osl(indices@[3])), osl(indices@[3])),
//@ ret-bind
        proof {
            let x0 = live(osl(a), osl(indices@[0]));
            let l0 = took(x0, osl(indices@[0]));
            let x1 = live(osl(b), osl(indices@[1]));
            let l1 = took(x1, osl(indices@[1]));
            let x2 = live(osl(c), osl(indices@[2]));
            let l2 = took(x2, osl(indices@[2]));
            let x3 = live(osl(d), osl(indices@[3]));
            let l3 = took(x3, osl(indices@[3]));
            if !x0 { assert(l0 + l1 + l2 + l3 =~= l1 + l2 + l3); }
            if !x1 { assert(l0 + l1 + l2 + l3 =~= l0 + l2 + l3); }
            if !x2 { assert(l0 + l1 + l2 + l3 =~= l0 + l1 + l3); }
            if !x3 { assert(l0 + l1 + l2 + l3 =~= l0 + l1 + l2); }
            if x0 && x1 && x2 && x3 { assert(l0 + l1 + l2 + l3 =~= seq![indices@[0]->Some_0@, indices@[1]->Some_0@, indices@[2]->Some_0@, indices@[3]->Some_0@]); }
        }
//@ subst `is_some_and(|data| !data.is_empty())` => `nonempty_vx()`
//@ end
}
//@ source src/lib.rs
/// Unifying the index arrays of a mesh
pub mod unify {
use vstd::prelude::*;
use crate::*;
use crate::vf::*;
use crate::mesh::*;
use crate::unify_data::*;
use crate::utilis::{next_new, lemma_next_new};
/// an attribute before and after unification by the index array r, if there was need for it
pub open spec fn attr_unified<T>(d: Option<Seq<T>>, t: Option<Seq<IndexType>>, nd: Option<Seq<T>>, nt: Option<Seq<IndexType>>, r: Option<Seq<IndexType>>) -> bool {
    if live(d, t) && r is Some { nd is Some && nt == r && merged(d->Some_0, t->Some_0, nd->Some_0, r->Some_0) } else { nd == d && nt == t }
}
/// the index arrays of all attributes with data and indices
pub open spec fn live_indices(m: MeshV) -> Seq<Seq<IndexType>> {
    took(live(m.v, m.vt), m.vt) + took(live(m.n, m.nt), m.nt) + took(live(m.u, m.ut), m.ut) + took(live(m.t, m.tt), m.tt)
}
/// some attributes have different index arrays
pub open spec fn some_differ(m: MeshV) -> bool {
    let (v, n, u, t) = (live(m.v, m.vt), live(m.n, m.nt), live(m.u, m.ut), live(m.t, m.tt));
    differ(v, m.vt, n, m.nt) || differ(v, m.vt, u, m.ut) || differ(v, m.vt, t, m.tt) || differ(n, m.nt, u, m.ut) || differ(n, m.nt, t, m.tt) || differ(u, m.ut, t, m.tt)
}
pub open spec fn unified_by(o: MeshV, n: MeshV, r: Option<Seq<IndexType>>) -> bool {
    &&& attr_unified(o.v, o.vt, n.v, n.vt, r)
    &&& attr_unified(o.n, o.nt, n.n, n.nt, r)
    &&& attr_unified(o.u, o.ut, n.u, n.ut, r)
    &&& attr_unified(o.t, o.tt, n.t, n.tt, r)
    &&& o.c == n.c
    &&& r is Some ==> numbers(live_indices(o), r->Some_0)
    &&& r is Some <==> some_differ(o)
}
pub open spec fn is_unified(o: MeshV, n: MeshV) -> bool { exists|r: Option<Seq<IndexType>>| unified_by(o, n, r) }
/// index arrays of the same length, in bounds
pub open spec fn unifiable(m: MeshV) -> bool {
    let (v, n, u, t) = (both(m.v, m.vt), both(m.n, m.nt), both(m.u, m.ut), both(m.t, m.tt));
    &&& mergeable(m.v, m.vt) && mergeable(m.n, m.nt) && mergeable(m.u, m.ut) && mergeable(m.t, m.tt)
    &&& same_len(v, m.vt, n, m.nt) && same_len(v, m.vt, u, m.ut) && same_len(v, m.vt, t, m.tt)
    &&& same_len(n, m.nt, u, m.ut) && same_len(n, m.nt, t, m.tt) && same_len(u, m.ut, t, m.tt)
}
//@ fn TMFMesh::unify_index_data
//@ spec
    requires unifiable(old(self)@),
    ensures is_unified(old(self)@, final(self)@),
//@ begin
    let ghost o = self@;
//@ after-let indices
    let ghost r = obx(indices);
    let ghost (gv, gn, gu, gt) = (obx(vertices), obx(normals), obx(uvs), obx(tangents));
//@ ret-bind
    proof {
        let n = self@;
        assert(attr_unified(o.v, o.vt, n.v, n.vt, r));
        assert(attr_unified(o.n, o.nt, n.n, n.nt, r));
        assert(attr_unified(o.u, o.ut, n.u, n.ut, r));
        assert(attr_unified(o.t, o.tt, n.t, n.tt, r));
        assert(o.c == n.c);
        assert(r is Some ==> some_differ(o));
        assert(some_differ(o) ==> r is Some);
        assert(r is Some ==> numbers(live_indices(o), r->Some_0));
        assert(unified_by(o, n, r));
    }
//@ subst `.clone` => `.clone_vx`
//@ end
/// afterwards all attributes with data and indices share one index array
pub proof fn theorem_shared(o: MeshV, n: MeshV)
    requires is_unified(o, n),
    ensures !some_differ(n),
{ }
/// every expanded buffer is what it was before, and attributes without data or indices are left as they were
pub proof fn theorem_same_buffers(o: MeshV, n: MeshV)
    requires is_unified(o, n), unifiable(o),
    ensures
        o.c == n.c, 
        same_buffer(o.v, o.vt, n.v, n.vt), same_buffer(o.n, o.nt, n.n, n.nt), same_buffer(o.u, o.ut, n.u, n.ut), same_buffer(o.t, o.tt, n.t, n.tt),
{ }
pub open spec fn same_buffer<T>(d: Option<Seq<T>>, t: Option<Seq<IndexType>>, nd: Option<Seq<T>>, nt: Option<Seq<IndexType>>) -> bool {
    if live(d, t) { nd is Some && nt is Some && all_in(nd->Some_0, nt->Some_0) && expand(nd->Some_0, nt->Some_0) == expand(d->Some_0, t->Some_0) } else { nd == d && nt == t }
}
proof fn lemma_merged_det<T>(d: Seq<T>, t: Seq<IndexType>, x: Seq<T>, y: Seq<T>, r: Seq<IndexType>)
    requires merged(d, t, x, r), merged(d, t, y, r),
    ensures x == y,
{
    assert forall|k: int| 0 <= k < x.len() implies x[k] == y[k] by {
        lemma_next_new(r, k);
        let i = choose|i: int| 0 <= i < r.len() && #[trigger] r[i] == k;
        assert(expand(x, r)[i] == expand(y, r)[i]);
    }
    assert(x =~= y);
}
/// the result is the same on every run
pub proof fn theorem_unify_det(o: MeshV, a: MeshV, b: MeshV)
    requires is_unified(o, a), is_unified(o, b), unifiable(o),
    ensures a == b,
{
    let p = choose|r: Option<Seq<IndexType>>| unified_by(o, a, r);
    let q = choose|r: Option<Seq<IndexType>>| unified_by(o, b, r);
    if some_differ(o) {
        let (r, s) = (p->Some_0, q->Some_0);
        theorem_numbers(live_indices(o), r, s);
        if live(o.v, o.vt) { lemma_merged_det(o.v->Some_0, o.vt->Some_0, a.v->Some_0, b.v->Some_0, r); }
        if live(o.n, o.nt) { lemma_merged_det(o.n->Some_0, o.nt->Some_0, a.n->Some_0, b.n->Some_0, r); }
        if live(o.u, o.ut) { lemma_merged_det(o.u->Some_0, o.ut->Some_0, a.u->Some_0, b.u->Some_0, r); }
        if live(o.t, o.tt) { lemma_merged_det(o.t->Some_0, o.tt->Some_0, a.t->Some_0, b.t->Some_0, r); }
    }
}
/// and unifying again changes nothing
pub proof fn theorem_unify_twice(o: MeshV, a: MeshV, b: MeshV)
    requires is_unified(o, a), is_unified(a, b),
    ensures a == b,
{ theorem_shared(o, a); }
}
