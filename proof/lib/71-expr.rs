pub mod expr_lemmas {
use super::*;
verus! {
/// derived
impl Clone for Expression { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// ---------------------------------------------------------------- meaning of expressions
pub open spec fn esem(e: Expression, t: Set<SmolStr>) -> bool decreases e {
    match e {
        Expression::Literal(x) => t.contains(x),
        Expression::And(v) => forall|i: int| 0 <= i < v.len() ==> esem(#[trigger] v@[i], t),
        Expression::Or(v) => exists|i: int| 0 <= i < v.len() && esem(#[trigger] v@[i], t),
    }
}
/// all of them, one of them
pub open spec fn all_sem(v: Seq<Expression>, t: Set<SmolStr>) -> bool { forall|i: int| 0 <= i < v.len() ==> esem(#[trigger] v[i], t) }
pub open spec fn any_sem(v: Seq<Expression>, t: Set<SmolStr>) -> bool { exists|i: int| 0 <= i < v.len() && esem(#[trigger] v[i], t) }
/// a set of conjunctions: one of them has only tags of t
pub open spec fn csem(cs: Set<TagSet>, t: Set<SmolStr>) -> bool { exists|c: TagSet| #[trigger] cs.contains(c) && c.set().subset_of(t) }
pub open spec fn dsem(d: Dnf, t: Set<SmolStr>) -> bool { csem(d.0.set(), t) }
/// no conjunction makes another one redundant
pub open spec fn antichain(cs: Set<TagSet>) -> bool { forall|a: TagSet, b: TagSet| #[trigger] cs.contains(a) && #[trigger] cs.contains(b) && a.set().subset_of(b.set()) ==> a == b }

/// non-redundant normal forms with the same meaning are the same: the order in which parts were combined is irrelevant
pub proof fn lemma_canonical(a: Dnf, b: Dnf)
    requires antichain(a.0.set()), antichain(b.0.set()), forall|t: Set<SmolStr>| #[trigger] dsem(a, t) == dsem(b, t)
    ensures a == b
{
    lemma_canonical_half(a, b);
    lemma_canonical_half(b, a);
    assert(a.0.set() =~= b.0.set());
    axiom_btreeset_eq(a.0, b.0);
}
pub proof fn lemma_canonical_half(a: Dnf, b: Dnf)
    requires antichain(a.0.set()), antichain(b.0.set()), forall|t: Set<SmolStr>| #[trigger] dsem(a, t) == dsem(b, t)
    ensures forall|x: TagSet| a.0.set().contains(x) ==> #[trigger] b.0.set().contains(x)
{
    assert forall|x: TagSet| a.0.set().contains(x) implies #[trigger] b.0.set().contains(x) by {
        assert(dsem(a, x.set()));
        assert(dsem(b, x.set()));
        let y = choose|y: TagSet| #[trigger] b.0.set().contains(y) && y.set().subset_of(x.set());
        assert(dsem(b, y.set()));
        assert(dsem(a, y.set()));
        let z = choose|z: TagSet| #[trigger] a.0.set().contains(z) && z.set().subset_of(y.set());
        assert(z.set().subset_of(x.set()));
        assert(z == x);
        assert(x.set() =~= y.set());
        axiom_vecset_eq(x, y);
    }
}
/// commutativity and associativity of the combination follow: whatever d1 and d2 are made of
pub proof fn lemma_order(x: Expression, y: Expression, dx: Dnf, dy: Dnf)
    requires forall|t: Set<SmolStr>| #[trigger] esem(x, t) == esem(y, t),
        forall|t: Set<SmolStr>| #[trigger] dsem(dx, t) == esem(x, t), forall|t: Set<SmolStr>| #[trigger] dsem(dy, t) == esem(y, t),
        antichain(dx.0.set()), antichain(dy.0.set())
    ensures dx == dy
{
    assert forall|t: Set<SmolStr>| #[trigger] dsem(dx, t) == dsem(dy, t) by { assert(esem(x, t) == esem(y, t)); }
    lemma_canonical(dx, dy);
}

// ---------------------------------------------------------------- adding a conjunction
pub open spec fn supers(cs: Set<TagSet>, b: TagSet) -> Set<TagSet> { cs.filter(|a: TagSet| b.set().subset_of(a.set())) }
pub proof fn lemma_redundant(cs: Set<TagSet>, a: TagSet, b: TagSet)
    requires cs.contains(a), a.set().subset_of(b.set())
    ensures forall|t: Set<SmolStr>| #[trigger] csem(cs, t) == (csem(cs, t) || b.set().subset_of(t))
{
    assert forall|t: Set<SmolStr>| b.set().subset_of(t) implies #[trigger] csem(cs, t) by { assert(a.set().subset_of(t)); }
}
pub proof fn lemma_added(cs: Set<TagSet>, b: TagSet, r: Set<TagSet>)
    requires forall|a: TagSet| #[trigger] cs.contains(a) ==> !a.set().subset_of(b.set()), r == cs.difference(supers(cs, b)).insert(b)
    ensures forall|t: Set<SmolStr>| #[trigger] csem(r, t) == (csem(cs, t) || b.set().subset_of(t)), antichain(cs) ==> antichain(r)
{
    assert forall|t: Set<SmolStr>| #[trigger] csem(r, t) == (csem(cs, t) || b.set().subset_of(t)) by {
        if csem(r, t) {
            let c = choose|c: TagSet| #[trigger] r.contains(c) && c.set().subset_of(t);
            if c != b { assert(cs.contains(c)); }
        }
        if csem(cs, t) {
            let c = choose|c: TagSet| #[trigger] cs.contains(c) && c.set().subset_of(t);
            if b.set().subset_of(c.set()) { assert(b.set().subset_of(t)); assert(r.contains(b)); } else { assert(r.contains(c)); }
        }
        if b.set().subset_of(t) { assert(r.contains(b)); }
    }
    if antichain(cs) {
        assert forall|x: TagSet, y: TagSet| #[trigger] r.contains(x) && #[trigger] r.contains(y) && x.set().subset_of(y.set()) implies x == y by {
            if x != b && y != b { assert(cs.contains(x) && cs.contains(y)); }
            else if x == b && y != b { assert(cs.contains(y)); assert(supers(cs, b).contains(y)); }
            else if x != b && y == b { assert(cs.contains(x)); }
        }
    }
}
pub broadcast proof fn lemma_single(c: TagSet, t: Set<SmolStr>)
    ensures #[trigger] csem(set![c], t) == c.set().subset_of(t)
{
    assert(set![c].contains(c));
}
pub broadcast proof fn lemma_single_tag(x: SmolStr, t: Set<SmolStr>) ensures #[trigger] set![x].subset_of(t) == t.contains(x) { assert(set![x].contains(x)); }
pub proof fn lemma_csem_push(s: Seq<TagSet>, b: TagSet) ensures forall|t: Set<SmolStr>| #[trigger] csem(s.push(b).to_set(), t) == (csem(s.to_set(), t) || b.set().subset_of(t)) {
    lemma_pushed(s, b);
    assert forall|t: Set<SmolStr>| #[trigger] csem(s.push(b).to_set(), t) == (csem(s.to_set(), t) || b.set().subset_of(t)) by {
        if csem(s.push(b).to_set(), t) {
            let c = choose|c: TagSet| #[trigger] s.push(b).to_set().contains(c) && c.set().subset_of(t);
            let i = choose|i: int| 0 <= i <= s.len() && s.push(b)[i] == c;
            if i < s.len() { assert(s[i] == c); assert(s.to_set().contains(c)); }
        }
        if csem(s.to_set(), t) {
            let c = choose|c: TagSet| #[trigger] s.to_set().contains(c) && c.set().subset_of(t);
            assert(s.push(b).to_set().contains(c));
        }
        if b.set().subset_of(t) { assert(s.push(b).to_set().contains(b)); }
    }
}
pub broadcast proof fn lemma_csem_empty(s: Set<TagSet>, t: Set<SmolStr>) ensures s.len() == 0 && s.finite() ==> !#[trigger] csem(s, t) { if csem(s, t) && s.len() == 0 { let c = choose|c: TagSet| #[trigger] s.contains(c) && c.set().subset_of(t); assert(s =~= Set::empty()); } }
/// flattening keeps the meaning
pub proof fn lemma_flat_sem(v: Seq<Expression>, p: Seq<Vec<Expression>>, f: Seq<Expression>)
    requires p.len() == v.len(), f == join_parts(parts_of(p))
    ensures
        forall|t: Set<SmolStr>| (forall|i: int| 0 <= i < v.len() ==> any_sem((#[trigger] p[i])@, t) == esem(v[i], t)) ==> #[trigger] any_sem(f, t) == any_sem(v, t),
        forall|t: Set<SmolStr>| (forall|i: int| 0 <= i < v.len() ==> all_sem((#[trigger] p[i])@, t) == esem(v[i], t)) ==> #[trigger] all_sem(f, t) == all_sem(v, t),
{
    let s = parts_of(p);
    lemma_join_parts(s);
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] s[i] == p[i]@ by { }
    assert forall|t: Set<SmolStr>| (forall|i: int| 0 <= i < v.len() ==> any_sem((#[trigger] p[i])@, t) == esem(v[i], t)) implies #[trigger] any_sem(f, t) == any_sem(v, t) by {
        if any_sem(f, t) {
            let k = choose|k: int| 0 <= k < f.len() && esem(#[trigger] f[k], t);
            let (i, j) = choose|i: int, j: int| #[trigger] spot(s, i, j, f[k]);
            assert(s[i] == p[i]@);
            assert(esem(p[i]@[j], t));
            assert(any_sem(p[i]@, t));
            assert(esem(v[i], t));
        }
        if any_sem(v, t) {
            let i = choose|i: int| 0 <= i < v.len() && esem(#[trigger] v[i], t);
            assert(any_sem(p[i]@, t));
            let j = choose|j: int| 0 <= j < p[i]@.len() && esem(#[trigger] p[i]@[j], t);
            assert(s[i] == p[i]@);
            assert(f.contains(s[i][j]));
            let k = choose|k: int| 0 <= k < f.len() && f[k] == s[i][j];
            assert(esem(f[k], t));
        }
    }
    assert forall|t: Set<SmolStr>| (forall|i: int| 0 <= i < v.len() ==> all_sem((#[trigger] p[i])@, t) == esem(v[i], t)) implies #[trigger] all_sem(f, t) == all_sem(v, t) by {
        if all_sem(f, t) {
            assert forall|i: int| 0 <= i < v.len() implies esem(#[trigger] v[i], t) by {
                assert(s[i] == p[i]@);
                assert forall|j: int| 0 <= j < p[i]@.len() implies esem(#[trigger] p[i]@[j], t) by {
                    assert(f.contains(s[i][j]));
                    let k = choose|k: int| 0 <= k < f.len() && f[k] == s[i][j];
                    assert(esem(f[k], t));
                }
                assert(all_sem(p[i]@, t));
            }
        }
        if all_sem(v, t) {
            assert forall|k: int| 0 <= k < f.len() implies esem(#[trigger] f[k], t) by {
                let (i, j) = choose|i: int, j: int| #[trigger] spot(s, i, j, f[k]);
                assert(s[i] == p[i]@);
                assert(esem(v[i], t));
                assert(all_sem(p[i]@, t));
                assert(esem(p[i]@[j], t));
            }
        }
    }
}

pub broadcast proof fn lemma_one_any(s: Seq<Expression>, t: Set<SmolStr>) ensures s.len() == 1 ==> #[trigger] any_sem(s, t) == esem(s[0], t) { if s.len() == 1 && esem(s[0], t) { assert(esem(s[0], t)); } }
pub broadcast proof fn lemma_one_all(s: Seq<Expression>, t: Set<SmolStr>) ensures s.len() == 1 ==> #[trigger] all_sem(s, t) == esem(s[0], t) { if s.len() == 1 && all_sem(s, t) { assert(esem(s[0], t)); } }
pub broadcast proof fn lemma_two_any(s: Seq<Expression>, t: Set<SmolStr>) ensures s.len() == 2 ==> #[trigger] any_sem(s, t) == (esem(s[0], t) || esem(s[1], t)) { if s.len() == 2 { if esem(s[0], t) { } if esem(s[1], t) { } } }
pub broadcast proof fn lemma_two_all(s: Seq<Expression>, t: Set<SmolStr>) ensures s.len() == 2 ==> #[trigger] all_sem(s, t) == (esem(s[0], t) && esem(s[1], t)) { if s.len() == 2 && all_sem(s, t) { assert(esem(s[0], t)); assert(esem(s[1], t)); } }
pub broadcast proof fn lemma_sem_or(v: Vec<Expression>, t: Set<SmolStr>) ensures #[trigger] esem(Expression::Or(v), t) == any_sem(v@, t) { }
pub broadcast proof fn lemma_sem_and(v: Vec<Expression>, t: Set<SmolStr>) ensures #[trigger] esem(Expression::And(v), t) == all_sem(v@, t) {
    if esem(Expression::And(v), t) { assert forall|i: int| 0 <= i < v@.len() implies esem(#[trigger] v@[i], t) by { } }
}
/// flattening keeps the meaning
pub broadcast proof fn lemma_flat_any(v: Seq<Expression>, p: Seq<Vec<Expression>>, t: Set<SmolStr>)
    requires p.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> any_sem((#[trigger] p[i])@, t) == esem(v[i], t)
    ensures #![trigger any_sem(join_parts(parts_of(p)), t), any_sem(v, t)] any_sem(join_parts(parts_of(p)), t) == any_sem(v, t)
{ lemma_flat_sem(v, p, join_parts(parts_of(p))); }
pub broadcast proof fn lemma_flat_all(v: Seq<Expression>, p: Seq<Vec<Expression>>, t: Set<SmolStr>)
    requires p.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> all_sem((#[trigger] p[i])@, t) == esem(v[i], t)
    ensures #![trigger all_sem(join_parts(parts_of(p)), t), all_sem(v, t)] all_sem(join_parts(parts_of(p)), t) == all_sem(v, t)
{ lemma_flat_sem(v, p, join_parts(parts_of(p))); }
pub proof fn lemma_pushed<A>(s: Seq<A>, a: A) ensures s.push(a).contains(a), forall|x: A| #[trigger] s.push(a).contains(x) == (s.contains(x) || x == a) {
    assert(s.push(a)[s.len() as int] == a);
    assert forall|x: A| #[trigger] s.push(a).contains(x) implies s.contains(x) || x == a by { let i = choose|i: int| 0 <= i < s.push(a).len() && s.push(a)[i] == x; if i < s.len() { assert(s[i] == x); } }
    assert forall|x: A| s.contains(x) implies #[trigger] s.push(a).contains(x) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.push(a)[i] == x); }
}
pub broadcast proof fn lemma_any_csem(s: Seq<Expression>, cs: Seq<TagSet>, t: Set<SmolStr>)
    requires s.len() == cs.len(), forall|i: int| 0 <= i < s.len() ==> esem(#[trigger] s[i], t) == cs[i].set().subset_of(t)
    ensures #![trigger any_sem(s, t), csem(cs.to_set(), t)] any_sem(s, t) == csem(cs.to_set(), t)
{
    if any_sem(s, t) { let i = choose|i: int| 0 <= i < s.len() && esem(#[trigger] s[i], t); assert(cs.to_set().contains(cs[i])); }
    if csem(cs.to_set(), t) {
        let c = choose|c: TagSet| #[trigger] cs.to_set().contains(c) && c.set().subset_of(t);
        let i = choose|i: int| 0 <= i < cs.len() && cs[i] == c;
        assert(esem(s[i], t));
    }
}
// ---------------------------------------------------------------- folds of expressions and normal forms
pub open spec fn dnf_or<F: Fn(Dnf, Dnf) -> Dnf>(f: F) -> bool { forall|a: Dnf, b: Dnf, r: Dnf| #[trigger] call_ensures(f, (a, b), r) ==> (antichain(a.0.set()) ==> antichain(r.0.set())) && forall|t: Set<SmolStr>| #[trigger] dsem(r, t) == (dsem(a, t) || dsem(b, t)) }
pub open spec fn dnf_and<F: Fn(Dnf, Dnf) -> Dnf>(f: F) -> bool { forall|a: Dnf, b: Dnf, r: Dnf| #[trigger] call_ensures(f, (a, b), r) ==> antichain(r.0.set()) && forall|t: Set<SmolStr>| #[trigger] dsem(r, t) == (dsem(a, t) && dsem(b, t)) }
pub open spec fn expr_or<F: Fn(Expression, Expression) -> Expression>(f: F) -> bool { forall|a: Expression, b: Expression, r: Expression| #[trigger] call_ensures(f, (a, b), r) ==> forall|t: Set<SmolStr>| #[trigger] esem(r, t) == (esem(a, t) || esem(b, t)) }
pub open spec fn expr_and<F: Fn(Expression, Expression) -> Expression>(f: F) -> bool { forall|a: Expression, b: Expression, r: Expression| #[trigger] call_ensures(f, (a, b), r) ==> forall|t: Set<SmolStr>| #[trigger] esem(r, t) == (esem(a, t) && esem(b, t)) }
pub open spec fn any_dsem(v: Seq<Dnf>, t: Set<SmolStr>) -> bool { exists|i: int| 0 <= i < v.len() && dsem(#[trigger] v[i], t) }
pub open spec fn all_dsem(v: Seq<Dnf>, t: Set<SmolStr>) -> bool { forall|i: int| 0 <= i < v.len() ==> dsem(#[trigger] v[i], t) }
pub broadcast proof fn lemma_fold_dnf_or<F: Fn(Dnf, Dnf) -> Dnf>(f: F, s: Seq<Dnf>, acc: Seq<Dnf>)
    requires #[trigger] folded(f, s, acc), dnf_or(f)
    ensures forall|t: Set<SmolStr>| #[trigger] dsem(acc.last(), t) == any_dsem(s, t), antichain(s[0].0.set()) ==> antichain(acc.last().0.set())
{
    reveal(folded);
    assert forall|n: int| 0 <= n < s.len() implies #[trigger] lemma_fold_dnf_or_at(s, acc, n) by { lemma_fold_dnf_or_upto(f, s, acc, n); }
    assert(lemma_fold_dnf_or_at(s, acc, s.len() - 1));
    assert(s.take(s.len() as int) =~= s);
}
pub open spec fn lemma_fold_dnf_or_at(s: Seq<Dnf>, acc: Seq<Dnf>, n: int) -> bool { (forall|t: Set<SmolStr>| #[trigger] dsem(acc[n], t) == any_dsem(s.take(n + 1), t)) && (antichain(s[0].0.set()) ==> antichain(acc[n].0.set())) }
pub proof fn lemma_fold_dnf_or_upto<F: Fn(Dnf, Dnf) -> Dnf>(f: F, s: Seq<Dnf>, acc: Seq<Dnf>, n: int)
    requires folded(f, s, acc), dnf_or(f), 0 <= n < s.len()
    ensures lemma_fold_dnf_or_at(s, acc, n)
    decreases n
{
    reveal(folded);
    let a = s.take(n + 1);
    if n == 0 {
        assert forall|t: Set<SmolStr>| #[trigger] dsem(acc[0], t) == any_dsem(a, t) by { assert(a[0] == s[0]); }
    } else {
        lemma_fold_dnf_or_upto(f, s, acc, n - 1);
        let b = s.take(n);
        assert(call_ensures(f, (acc[n - 1], s[n]), acc[n]));
        assert forall|t: Set<SmolStr>| #[trigger] dsem(acc[n], t) == any_dsem(a, t) by {
            assert(dsem(acc[n], t) == (dsem(acc[n - 1], t) || dsem(s[n], t)));
            assert(dsem(acc[n - 1], t) == any_dsem(b, t));
            assert(a[n] == s[n]);
            assert forall|i: int| 0 <= i < n implies a[i] == b[i] by { }
            if any_dsem(b, t) || dsem(s[n], t) {
                let i = if dsem(s[n], t) { n } else { choose|i: int| 0 <= i < b.len() && dsem(#[trigger] b[i], t) }; assert(dsem(a[i], t));
            }
            if any_dsem(a, t) {
                let i = choose|i: int| 0 <= i < a.len() && dsem(#[trigger] a[i], t); if i < n { assert(dsem(b[i], t)); }
            }
        }
    }
}
pub broadcast proof fn lemma_fold_dnf_and<F: Fn(Dnf, Dnf) -> Dnf>(f: F, s: Seq<Dnf>, acc: Seq<Dnf>)
    requires #[trigger] folded(f, s, acc), dnf_and(f)
    ensures forall|t: Set<SmolStr>| #[trigger] dsem(acc.last(), t) == all_dsem(s, t), antichain(s[0].0.set()) ==> antichain(acc.last().0.set())
{
    reveal(folded);
    assert forall|n: int| 0 <= n < s.len() implies #[trigger] lemma_fold_dnf_and_at(s, acc, n) by { lemma_fold_dnf_and_upto(f, s, acc, n); }
    assert(lemma_fold_dnf_and_at(s, acc, s.len() - 1));
    assert(s.take(s.len() as int) =~= s);
}
pub open spec fn lemma_fold_dnf_and_at(s: Seq<Dnf>, acc: Seq<Dnf>, n: int) -> bool { (forall|t: Set<SmolStr>| #[trigger] dsem(acc[n], t) == all_dsem(s.take(n + 1), t)) && (antichain(s[0].0.set()) ==> antichain(acc[n].0.set())) }
pub proof fn lemma_fold_dnf_and_upto<F: Fn(Dnf, Dnf) -> Dnf>(f: F, s: Seq<Dnf>, acc: Seq<Dnf>, n: int)
    requires folded(f, s, acc), dnf_and(f), 0 <= n < s.len()
    ensures lemma_fold_dnf_and_at(s, acc, n)
    decreases n
{
    reveal(folded);
    let a = s.take(n + 1);
    if n == 0 {
        assert forall|t: Set<SmolStr>| #[trigger] dsem(acc[0], t) == all_dsem(a, t) by { assert(a[0] == s[0]); }
    } else {
        lemma_fold_dnf_and_upto(f, s, acc, n - 1);
        let b = s.take(n);
        assert(call_ensures(f, (acc[n - 1], s[n]), acc[n]));
        assert forall|t: Set<SmolStr>| #[trigger] dsem(acc[n], t) == all_dsem(a, t) by {
            assert(dsem(acc[n], t) == (dsem(acc[n - 1], t) && dsem(s[n], t)));
            assert(dsem(acc[n - 1], t) == all_dsem(b, t));
            assert(a[n] == s[n]);
            assert forall|i: int| 0 <= i < n implies a[i] == b[i] by { }
            if all_dsem(b, t) && dsem(s[n], t) {
                assert forall|i: int| 0 <= i < a.len() implies dsem(#[trigger] a[i], t) by { if i < n { assert(b[i] == a[i]); } }
            }
            if all_dsem(a, t) {
                assert forall|i: int| 0 <= i < b.len() implies dsem(#[trigger] b[i], t) by { assert(a[i] == b[i]); }
            }
        }
    }
}
pub broadcast proof fn lemma_fold_expr_or<F: Fn(Expression, Expression) -> Expression>(f: F, s: Seq<Expression>, acc: Seq<Expression>)
    requires #[trigger] folded(f, s, acc), expr_or(f)
    ensures forall|t: Set<SmolStr>| #[trigger] esem(acc.last(), t) == any_sem(s, t)
{
    reveal(folded);
    assert forall|n: int| 0 <= n < s.len() implies #[trigger] lemma_fold_expr_or_at(s, acc, n) by { lemma_fold_expr_or_upto(f, s, acc, n); }
    assert(lemma_fold_expr_or_at(s, acc, s.len() - 1));
    assert(s.take(s.len() as int) =~= s);
}
pub open spec fn lemma_fold_expr_or_at(s: Seq<Expression>, acc: Seq<Expression>, n: int) -> bool { (forall|t: Set<SmolStr>| #[trigger] esem(acc[n], t) == any_sem(s.take(n + 1), t)) }
pub proof fn lemma_fold_expr_or_upto<F: Fn(Expression, Expression) -> Expression>(f: F, s: Seq<Expression>, acc: Seq<Expression>, n: int)
    requires folded(f, s, acc), expr_or(f), 0 <= n < s.len()
    ensures lemma_fold_expr_or_at(s, acc, n)
    decreases n
{
    reveal(folded);
    let a = s.take(n + 1);
    if n == 0 {
        assert forall|t: Set<SmolStr>| #[trigger] esem(acc[0], t) == any_sem(a, t) by { assert(a[0] == s[0]); }
    } else {
        lemma_fold_expr_or_upto(f, s, acc, n - 1);
        let b = s.take(n);
        assert(call_ensures(f, (acc[n - 1], s[n]), acc[n]));
        assert forall|t: Set<SmolStr>| #[trigger] esem(acc[n], t) == any_sem(a, t) by {
            assert(esem(acc[n], t) == (esem(acc[n - 1], t) || esem(s[n], t)));
            assert(esem(acc[n - 1], t) == any_sem(b, t));
            assert(a[n] == s[n]);
            assert forall|i: int| 0 <= i < n implies a[i] == b[i] by { }
            if any_sem(b, t) || esem(s[n], t) {
                let i = if esem(s[n], t) { n } else { choose|i: int| 0 <= i < b.len() && esem(#[trigger] b[i], t) }; assert(esem(a[i], t));
            }
            if any_sem(a, t) {
                let i = choose|i: int| 0 <= i < a.len() && esem(#[trigger] a[i], t); if i < n { assert(esem(b[i], t)); }
            }
        }
    }
}
pub broadcast proof fn lemma_fold_expr_and<F: Fn(Expression, Expression) -> Expression>(f: F, s: Seq<Expression>, acc: Seq<Expression>)
    requires #[trigger] folded(f, s, acc), expr_and(f)
    ensures forall|t: Set<SmolStr>| #[trigger] esem(acc.last(), t) == all_sem(s, t)
{
    reveal(folded);
    assert forall|n: int| 0 <= n < s.len() implies #[trigger] lemma_fold_expr_and_at(s, acc, n) by { lemma_fold_expr_and_upto(f, s, acc, n); }
    assert(lemma_fold_expr_and_at(s, acc, s.len() - 1));
    assert(s.take(s.len() as int) =~= s);
}
pub open spec fn lemma_fold_expr_and_at(s: Seq<Expression>, acc: Seq<Expression>, n: int) -> bool { (forall|t: Set<SmolStr>| #[trigger] esem(acc[n], t) == all_sem(s.take(n + 1), t)) }
pub proof fn lemma_fold_expr_and_upto<F: Fn(Expression, Expression) -> Expression>(f: F, s: Seq<Expression>, acc: Seq<Expression>, n: int)
    requires folded(f, s, acc), expr_and(f), 0 <= n < s.len()
    ensures lemma_fold_expr_and_at(s, acc, n)
    decreases n
{
    reveal(folded);
    let a = s.take(n + 1);
    if n == 0 {
        assert forall|t: Set<SmolStr>| #[trigger] esem(acc[0], t) == all_sem(a, t) by { assert(a[0] == s[0]); }
    } else {
        lemma_fold_expr_and_upto(f, s, acc, n - 1);
        let b = s.take(n);
        assert(call_ensures(f, (acc[n - 1], s[n]), acc[n]));
        assert forall|t: Set<SmolStr>| #[trigger] esem(acc[n], t) == all_sem(a, t) by {
            assert(esem(acc[n], t) == (esem(acc[n - 1], t) && esem(s[n], t)));
            assert(esem(acc[n - 1], t) == all_sem(b, t));
            assert(a[n] == s[n]);
            assert forall|i: int| 0 <= i < n implies a[i] == b[i] by { }
            if all_sem(b, t) && esem(s[n], t) {
                assert forall|i: int| 0 <= i < a.len() implies esem(#[trigger] a[i], t) by { if i < n { assert(b[i] == a[i]); } }
            }
            if all_sem(a, t) {
                assert forall|i: int| 0 <= i < b.len() implies esem(#[trigger] b[i], t) by { assert(a[i] == b[i]); }
            }
        }
    }
}
}
}
pub use expr_lemmas::*;
