use vstd::prelude::*;
use crate::base::*;
use crate::exc::*;
use crate::mmt::*;
use crate::bpspec::*;
verus! {
// ---------------------------------------------------------------- the ordinal tree (or forest) a sequence of parentheses encodes
/// the sequence is balanced
pub open spec fn bal(b: Seq<bool>) -> bool { ex(b, b.len() as int) == 0 && forall|p: int| 0 <= p <= b.len() ==> #[trigger] ex(b, p) >= 0 }
pub open spec fn is_node(b: Seq<bool>, i: int) -> bool { 0 <= i < b.len() && b[i] }
/// the parenthesis closed at `j` is the one opened at `i`
pub open spec fn mate(b: Seq<bool>, i: int, j: int) -> bool {
    is_node(b, i) && i < j < b.len() && !b[j] && ex(b, j + 1) == ex(b, i) && forall|p: int| i < p <= j ==> #[trigger] ex(b, p) > ex(b, i)
}
/// node `k` lies below node `i` or is that node: the parenthesis opened at `i` is open at `k`
pub open spec fn anc(b: Seq<bool>, i: int, k: int) -> bool {
    is_node(b, i) && is_node(b, k) && i <= k && forall|p: int| i < p <= k ==> #[trigger] ex(b, p) > ex(b, i)
}
/// node `i` is the innermost proper ancestor of `k`
pub open spec fn par(b: Seq<bool>, i: int, k: int) -> bool {
    i < k && anc(b, i, k) && forall|j: int| i < j < k ==> !#[trigger] anc(b, j, k)
}
/// the nodes have the same parent, or both have none
pub open spec fn sib(b: Seq<bool>, i: int, k: int) -> bool {
    is_node(b, i) && is_node(b, k) && forall|p: int| #[trigger] par(b, p, i) == par(b, p, k)
}
/// the number of proper ancestors
pub open spec fn tdepth(b: Seq<bool>, k: int) -> int
    decreases k,
{
    if 0 <= k && exists|p: int| 0 <= p < k && #[trigger] par(b, p, k) { 1 + tdepth(b, choose|p: int| 0 <= p < k && #[trigger] par(b, p, k)) } else { 0 }
}
/// no hit in a run that starts above (below) the value: all of it stays above (below)
pub proof fn lemma_above(b: Seq<bool>, x: int, y: int, v: int)
    requires 0 <= x <= y, ex(b, x) > v, forall|p: int| x <= p <= y ==> #[trigger] ex(b, p) != v,
    ensures forall|p: int| x <= p <= y ==> #[trigger] ex(b, p) > v,
{
    assert forall|p: int| x <= p <= y implies #[trigger] ex(b, p) > v by {
        if ex(b, p) < v { let q = lemma_ivt(b, x, p, v); assert(ex(b, q) == v); }
    }
}
pub proof fn lemma_above_b(b: Seq<bool>, x: int, y: int, v: int)
    requires 0 <= x <= y, ex(b, y) > v, forall|p: int| x <= p <= y ==> #[trigger] ex(b, p) != v,
    ensures forall|p: int| x <= p <= y ==> #[trigger] ex(b, p) > v,
{
    assert forall|p: int| x <= p <= y implies #[trigger] ex(b, p) > v by {
        if ex(b, p) < v { let q = lemma_ivt(b, p, y, v); assert(ex(b, q) == v); }
    }
}
/// forward search for -1 from an opening parenthesis finds its mate
pub proof fn lemma_close(b: Seq<bool>, i: int)
    requires is_node(b, i),
    ensures forall|j: int| #[trigger] fwd_at(b, i + 1, b.len() as int, -1, j) ==> mate(b, i, j),
        nohit(b, i + 1, i + 2, b.len() as int + 1, -1) ==> !bal(b) && forall|j: int| !#[trigger] mate(b, i, j),
{
    lemma_ex_step(b, i);
    assert forall|j: int| #[trigger] fwd_at(b, i + 1, b.len() as int, -1, j) implies mate(b, i, j) by {
        lemma_ex_step(b, j);
        assert forall|p: int| i + 1 <= p <= j implies #[trigger] ex(b, p) != ex(b, i) by { if p > i + 1 { assert(ex(b, p) - ex(b, i + 1) != -1); } }
        if j >= i + 1 { lemma_above(b, i + 1, j, ex(b, i)); }
        assert(ex(b, j + 1) == ex(b, i));
        assert(j >= i + 1);
    }
    if nohit(b, i + 1, i + 2, b.len() as int + 1, -1) {
        assert forall|p: int| i + 1 <= p <= b.len() implies #[trigger] ex(b, p) != ex(b, i) by { if p > i + 1 { assert(ex(b, p) - ex(b, i + 1) != -1); } }
        lemma_above(b, i + 1, b.len() as int, ex(b, i));
        assert forall|j: int| !#[trigger] mate(b, i, j) by { if mate(b, i, j) { assert(ex(b, j + 1) > ex(b, i)); } }
        if bal(b) { assert(ex(b, i) >= 0); assert(ex(b, b.len() as int) > ex(b, i)); }
    }
}
/// backward search for -1 from a closing parenthesis finds its mate
pub proof fn lemma_open(b: Seq<bool>, j: int)
    requires 0 <= j < b.len(), !b[j],
    ensures forall|i: int| #[trigger] bwd_at(b, j, 0, -1, i) ==> mate(b, i, j),
        nohit(b, j, 0, j, -1) ==> !bal(b) && forall|i: int| !#[trigger] mate(b, i, j),
{
    lemma_ex_step(b, j);
    assert forall|i: int| #[trigger] bwd_at(b, j, 0, -1, i) implies mate(b, i, j) by {
        lemma_ex_step(b, i);
        assert forall|p: int| i + 1 <= p <= j implies #[trigger] ex(b, p) != ex(b, i) by { if p < j { assert(ex(b, p) - ex(b, j) != -1); } }
        lemma_above_b(b, i + 1, j, ex(b, i));
        assert(ex(b, i + 1) > ex(b, i));
    }
    if nohit(b, j, 0, j, -1) {
        assert forall|i: int| !#[trigger] mate(b, i, j) by { if mate(b, i, j) { assert(ex(b, i) - ex(b, j) == -1); } }
        if bal(b) {
            assert(ex(b, j + 1) >= 0);
            let q = lemma_ivt(b, 0, j, ex(b, j) - 1);
            assert(ex(b, q) - ex(b, j) == -1);
        }
    }
}
/// backward search for -1 from a node finds its parent
pub proof fn lemma_parent(b: Seq<bool>, k: int)
    requires is_node(b, k),
    ensures forall|i: int| #[trigger] bwd_at(b, k, 0, -1, i) ==> par(b, i, k) && ex(b, k) == ex(b, i) + 1,
        nohit(b, k, 0, k, -1) ==> forall|i: int| i < k ==> !#[trigger] anc(b, i, k),
        nohit(b, k, 0, k, -1) && bal(b) ==> ex(b, k) == 0,
{
    assert forall|i: int| #[trigger] bwd_at(b, k, 0, -1, i) implies par(b, i, k) && ex(b, k) == ex(b, i) + 1 by {
        lemma_ex_step(b, i);
        assert forall|p: int| i + 1 <= p <= k implies #[trigger] ex(b, p) != ex(b, i) by { if p < k { assert(ex(b, p) - ex(b, k) != -1); } }
        lemma_above_b(b, i + 1, k, ex(b, i));
        assert(ex(b, i + 1) > ex(b, i));
        assert forall|j: int| i < j < k implies !#[trigger] anc(b, j, k) by { assert(ex(b, j) > ex(b, i)); assert(ex(b, k) == ex(b, i) + 1); }
    }
    if nohit(b, k, 0, k, -1) {
        assert forall|i: int| i < k implies !#[trigger] anc(b, i, k) by {
            if anc(b, i, k) {
                assert(ex(b, k) > ex(b, i));
                let q = lemma_ivt(b, i, k, ex(b, k) - 1);
                assert(ex(b, q) - ex(b, k) == -1);
            }
        }
        if bal(b) && ex(b, k) != 0 {
            assert(ex(b, k) >= 0);
            let q = lemma_ivt(b, 0, k, ex(b, k) - 1);
            assert(ex(b, q) - ex(b, k) == -1);
        }
    }
}
/// the last position in [0, k) that hits
pub proof fn lemma_last_hit(b: Seq<bool>, k: int, y: int, rel: int) -> (i: int)
    requires 0 <= y < k <= b.len(), ex(b, y) - ex(b, k) == rel,
    ensures y <= i < k, bwd_at(b, k, 0, rel, i),
    decreases k - y,
{
    if nohit(b, k, y + 1, k, rel) { y } else {
        let p = choose|p: int| y + 1 <= p < k && #[trigger] ex(b, p) - ex(b, k) == rel;
        lemma_last_hit(b, k, p, rel)
    }
}
/// parents in terms of the excess
pub proof fn lemma_par(b: Seq<bool>, i: int, k: int)
    ensures par(b, i, k) <==> (i < k && anc(b, i, k) && ex(b, k) == ex(b, i) + 1),
{
    if i < k && anc(b, i, k) {
        assert(ex(b, k) > ex(b, i));
        if ex(b, k) == ex(b, i) + 1 {
            assert forall|j: int| i < j < k implies !#[trigger] anc(b, j, k) by { assert(ex(b, j) > ex(b, i)); if anc(b, j, k) { assert(ex(b, k) > ex(b, j)); } }
        } else {
            let q = lemma_ivt(b, i, k, ex(b, k) - 1);
            let p = lemma_last_hit(b, k, q, -1);
            lemma_parent(b, k);
            assert(par(b, p, k));
            assert(p > i);
            assert(anc(b, p, k));
        }
    }
}
/// a node that is not at the top has a parent
pub proof fn lemma_has_parent(b: Seq<bool>, k: int) -> (i: int)
    requires is_node(b, k), bal(b) && ex(b, k) > 0 || exists|j: int| j < k && #[trigger] anc(b, j, k),
    ensures par(b, i, k), 0 <= i < k,
{
    lemma_parent(b, k);
    if nohit(b, k, 0, k, -1) { 0 } else {
        let y = choose|p: int| 0 <= p < k && #[trigger] ex(b, p) - ex(b, k) == -1;
        lemma_last_hit(b, k, y, -1)
    }
}
pub proof fn lemma_depth(b: Seq<bool>, k: int)
    requires bal(b), is_node(b, k),
    ensures tdepth(b, k) == ex(b, k), 0 <= ex(b, k),
    decreases k,
{
    assert(ex(b, k) >= 0);
    if ex(b, k) > 0 { let i = lemma_has_parent(b, k); assert(par(b, i, k)); }
    if exists|p: int| 0 <= p < k && #[trigger] par(b, p, k) {
        let p = choose|p: int| 0 <= p < k && #[trigger] par(b, p, k);
        lemma_par(b, p, k);
        lemma_depth(b, p);
    }
}
/// the node after the mate of `i` is the next sibling of `i`
pub proof fn lemma_next_sibling(b: Seq<bool>, i: int, j: int)
    requires mate(b, i, j), bal(b),
    ensures is_node(b, j + 1) ==> sib(b, i, j + 1),
        forall|k: int| i < k <= j ==> !#[trigger] sib(b, i, k),
        !is_node(b, j + 1) ==> forall|k: int| i < k ==> !#[trigger] sib(b, i, k),
{
    assert(ex(b, i) >= 0);
    assert forall|k: int| i < k <= j implies !#[trigger] sib(b, i, k) by {
        if sib(b, i, k) {
            assert(anc(b, i, k));
            let p = lemma_has_parent(b, k);
            lemma_par(b, p, k);
            assert(par(b, p, i) == par(b, p, k));
            lemma_par(b, p, i);
            assert(ex(b, k) > ex(b, i));
        }
    }
    if is_node(b, j + 1) {
        assert forall|p: int| #[trigger] par(b, p, i) == par(b, p, j + 1) by {
            lemma_par(b, p, i);
            lemma_par(b, p, j + 1);
            if par(b, p, i) {
                assert(ex(b, i) > ex(b, p));
                assert forall|q: int| p < q <= j + 1 implies #[trigger] ex(b, q) > ex(b, p) by { if q > i && q <= j { assert(ex(b, q) > ex(b, i)); } }
                assert(anc(b, p, j + 1));
            }
            if par(b, p, j + 1) {
                assert(ex(b, j + 1) > ex(b, p));
                if p > i { assert(p <= j); assert(ex(b, p) > ex(b, i)); }
                assert(p < i);
                assert(anc(b, p, i));
            }
        }
    } else {
        assert forall|k: int| i < k implies !#[trigger] sib(b, i, k) by {
            if sib(b, i, k) {
                assert(k > j + 1);
                lemma_ex_step(b, j + 1);
                assert(ex(b, j + 2) == ex(b, i) - 1);
                assert(ex(b, j + 2) >= 0);
                let p = lemma_has_parent(b, i);
                lemma_par(b, p, i);
                assert(par(b, p, i) == par(b, p, k));
                lemma_par(b, p, k);
                assert(ex(b, j + 2) > ex(b, p));
            }
        }
    }
}
/// a node right after an opening parenthesis is its first child
pub proof fn lemma_first_child(b: Seq<bool>, i: int)
    requires is_node(b, i),
    ensures is_node(b, i + 1) ==> par(b, i, i + 1) && forall|k: int| k <= i ==> !#[trigger] sib(b, k, i + 1),
        !is_node(b, i + 1) ==> forall|k: int| i < k ==> !#[trigger] anc(b, i, k),
{
    lemma_ex_step(b, i);
    if is_node(b, i + 1) {
        lemma_par(b, i, i + 1);
        assert forall|k: int| k <= i implies !#[trigger] sib(b, k, i + 1) by { if sib(b, k, i + 1) { assert(par(b, i, k) == par(b, i, i + 1)); } }
    } else {
        assert forall|k: int| i < k implies !#[trigger] anc(b, i, k) by {
            if anc(b, i, k) { lemma_ex_step(b, i + 1); assert(k >= i + 2); assert(ex(b, i + 2) > ex(b, i)); }
        }
    }
}
/// the mate of the parenthesis before the mate of `i` is the last child of `i`
pub proof fn lemma_last_child(b: Seq<bool>, i: int, j: int)
    requires mate(b, i, j), is_node(b, i + 1),
    ensures j >= i + 3, !b[j - 1], forall|p: int| #[trigger] mate(b, p, j - 1) ==> par(b, i, p) && forall|k: int| p < k ==> !#[trigger] par(b, i, k),
        !nohit(b, j - 1, 0, j - 1, -1),
{
    lemma_ex_step(b, i);
    lemma_ex_step(b, i + 1);
    lemma_ex_step(b, j);
    lemma_ex_step(b, j - 1);
    assert(j != i + 1);
    assert(j != i + 2);
    assert(ex(b, j - 1) > ex(b, i));
    assert(ex(b, i + 1) - ex(b, j - 1) == -1);
    assert forall|p: int| #[trigger] mate(b, p, j - 1) implies par(b, i, p) && forall|k: int| p < k ==> !#[trigger] par(b, i, k) by {
        if p <= i { if p < i { assert(ex(b, i + 1) > ex(b, p)); } assert(ex(b, i) >= ex(b, p)); }
        assert(p > i);
        lemma_par(b, i, p);
        assert forall|q: int| i < q <= p implies #[trigger] ex(b, q) > ex(b, i) by { }
        assert(anc(b, i, p));
        assert forall|k: int| p < k implies !#[trigger] par(b, i, k) by {
            lemma_par(b, i, k);
            if par(b, i, k) {
                if k > j { assert(ex(b, j + 1) > ex(b, i)); }
                assert(k <= j - 1);
                assert(ex(b, k) > ex(b, p));
            }
        }
    }
}
/// ancestors in terms of the mate
pub proof fn lemma_anc(b: Seq<bool>, i: int, j: int, k: int)
    requires mate(b, i, j), is_node(b, k),
    ensures anc(b, i, k) <==> i <= k < j,
{
    if anc(b, i, k) && k > j { assert(ex(b, j + 1) > ex(b, i)); }
}
// ---------------------------------------------------------------- levels
/// forward search from `s` for the level `v`
pub proof fn lemma_firstlevel(b: Seq<bool>, s: int, v: int)
    requires 0 <= s <= b.len(), ex(b, s) <= v,
    ensures forall|i: int| #[trigger] fwd_at(b, s, b.len() as int, v + 1 - ex(b, s), i) ==> is_node(b, i) && ex(b, i) == v && forall|k: int| s <= k < i && #[trigger] is_node(b, k) ==> ex(b, k) != v,
        nohit(b, s, s + 1, b.len() as int + 1, v + 1 - ex(b, s)) ==> forall|k: int| s <= k && #[trigger] is_node(b, k) ==> ex(b, k) != v,
{
    assert forall|i: int| #[trigger] fwd_at(b, s, b.len() as int, v + 1 - ex(b, s), i) implies is_node(b, i) && ex(b, i) == v && forall|k: int| s <= k < i && #[trigger] is_node(b, k) ==> ex(b, k) != v by {
        lemma_ex_step(b, i);
        if ex(b, i) != v {
            assert(ex(b, i) == v + 2);
            let q = lemma_ivt(b, s, i, v + 1);
            assert(ex(b, q) - ex(b, s) == v + 1 - ex(b, s));
        }
        assert forall|k: int| s <= k < i && #[trigger] is_node(b, k) implies ex(b, k) != v by {
            lemma_ex_step(b, k);
            assert(ex(b, k + 1) - ex(b, s) != v + 1 - ex(b, s));
        }
    }
    if nohit(b, s, s + 1, b.len() as int + 1, v + 1 - ex(b, s)) {
        assert forall|k: int| s <= k && #[trigger] is_node(b, k) implies ex(b, k) != v by {
            lemma_ex_step(b, k);
            assert(ex(b, k + 1) - ex(b, s) != v + 1 - ex(b, s));
        }
    }
}
/// backward search from `s` for the level `v`
pub proof fn lemma_lastlevel(b: Seq<bool>, s: int, v: int)
    requires 0 <= s <= b.len(), ex(b, s) <= v,
    ensures forall|i: int| #[trigger] bwd_at(b, s, 0, v + 1 - ex(b, s), i) ==> 0 <= i < s && !b[i] && ex(b, i + 1) == v && forall|k: int| i <= k < s && #[trigger] is_node(b, k) ==> ex(b, k) != v,
        nohit(b, s, 0, s, v + 1 - ex(b, s)) ==> forall|k: int| k < s && #[trigger] is_node(b, k) ==> ex(b, k) != v,
{
    assert forall|i: int| #[trigger] bwd_at(b, s, 0, v + 1 - ex(b, s), i) implies 0 <= i < s && !b[i] && ex(b, i + 1) == v && forall|k: int| i <= k < s && #[trigger] is_node(b, k) ==> ex(b, k) != v by {
        lemma_ex_step(b, i);
        if ex(b, i + 1) != v {
            assert(ex(b, i + 1) == v + 2);
            let q = lemma_ivt(b, i + 1, s, v + 1);
            assert(ex(b, q) - ex(b, s) == v + 1 - ex(b, s));
        }
        assert forall|k: int| i <= k < s && #[trigger] is_node(b, k) implies ex(b, k) != v by {
            lemma_ex_step(b, k);
            if k + 1 < s { assert(ex(b, k + 1) - ex(b, s) != v + 1 - ex(b, s)); }
        }
    }
    if nohit(b, s, 0, s, v + 1 - ex(b, s)) {
        assert forall|k: int| k < s && #[trigger] is_node(b, k) implies ex(b, k) != v by {
            lemma_ex_step(b, k);
            if k + 1 < s { assert(ex(b, k + 1) - ex(b, s) != v + 1 - ex(b, s)); }
        }
    }
}
/// backward search for -l from a node finds its l-th ancestor
pub proof fn lemma_levanc(b: Seq<bool>, k: int, l: int)
    requires is_node(b, k), l >= 1,
    ensures forall|i: int| #[trigger] bwd_at(b, k, 0, -l, i) ==> anc(b, i, k) && ex(b, k) == ex(b, i) + l,
        nohit(b, k, 0, k, -l) ==> forall|i: int| #[trigger] anc(b, i, k) ==> ex(b, k) != ex(b, i) + l,
{
    assert forall|i: int| #[trigger] bwd_at(b, k, 0, -l, i) implies anc(b, i, k) && ex(b, k) == ex(b, i) + l by {
        lemma_ex_step(b, i);
        assert forall|p: int| i + 1 <= p <= k implies #[trigger] ex(b, p) != ex(b, i) by { if p < k { assert(ex(b, p) - ex(b, k) != -l); } }
        lemma_above_b(b, i + 1, k, ex(b, i));
        assert(ex(b, i + 1) > ex(b, i));
    }
    if nohit(b, k, 0, k, -l) {
        assert forall|i: int| #[trigger] anc(b, i, k) implies ex(b, k) != ex(b, i) + l by {
            if i < k { assert(ex(b, i) - ex(b, k) != -l); }
        }
    }
}
/// a balanced sequence with one outermost pair
pub open spec fn one_root(b: Seq<bool>) -> bool { bal(b) && forall|p: int| 0 < p < b.len() ==> #[trigger] ex(b, p) > 0 }
pub proof fn lemma_depths(b: Seq<bool>)
    requires bal(b),
    ensures forall|k: int| is_node(b, k) ==> #[trigger] tdepth(b, k) == ex(b, k),
{
    assert forall|k: int| is_node(b, k) implies #[trigger] tdepth(b, k) == ex(b, k) by { lemma_depth(b, k); }
}
/// the nodes of the subtree of `i` are exactly those in [i, j)
pub open spec fn subtree(b: Seq<bool>, i: int, j: int) -> bool {
    mate(b, i, j) && forall|k: int| is_node(b, k) ==> (#[trigger] anc(b, i, k) <==> i <= k < j)
}
pub proof fn lemma_subtree(b: Seq<bool>, i: int, j: int)
    requires mate(b, i, j),
    ensures subtree(b, i, j),
{
    assert forall|k: int| is_node(b, k) implies (#[trigger] anc(b, i, k) <==> i <= k < j) by { lemma_anc(b, i, j, k); }
}
pub proof fn lemma_leaf(b: Seq<bool>, i: int)
    requires is_node(b, i),
    ensures bal(b) ==> i + 1 < b.len() && (!b[i + 1] <==> (forall|k: int| k > i ==> !#[trigger] anc(b, i, k))),
{
    lemma_ex_step(b, i);
    lemma_first_child(b, i);
    if bal(b) {
        assert(ex(b, i) >= 0);
        if i + 1 < b.len() && b[i + 1] { assert(anc(b, i, i + 1)); }
    }
}
/// the node before whose opening parenthesis lies that of `k`, or a closing one
pub proof fn lemma_prev(b: Seq<bool>, k: int)
    requires is_node(b, k),
    ensures bal(b) && k > 0 && b[k - 1] ==> forall|i: int| i < k ==> !#[trigger] sib(b, i, k),
        bal(b) && k == 0 ==> forall|i: int| i < k ==> !#[trigger] sib(b, i, k),
        bal(b) && k > 0 && !b[k - 1] ==> !nohit(b, k - 1, 0, k - 1, -1) && forall|p: int| #[trigger] bwd_at(b, k - 1, 0, -1, p) ==> p < k && sib(b, p, k) && forall|i: int| p < i < k ==> !#[trigger] sib(b, i, k),
{
    if bal(b) && k > 0 {
        if b[k - 1] { lemma_first_child(b, k - 1); }
        else {
            lemma_open(b, k - 1);
            assert forall|p: int| #[trigger] bwd_at(b, k - 1, 0, -1, p) implies p < k && sib(b, p, k) && forall|i: int| p < i < k ==> !#[trigger] sib(b, i, k) by {
                lemma_next_sibling(b, p, k - 1);
                assert forall|i: int| p < i < k implies !#[trigger] sib(b, i, k) by {
                    if sib(b, i, k) {
                        assert forall|q: int| #[trigger] par(b, q, p) == par(b, q, i) by { assert(par(b, q, p) == par(b, q, k)); assert(par(b, q, i) == par(b, q, k)); }
                        assert(sib(b, p, i));
                    }
                }
            }
        }
    }
}
} // verus!
