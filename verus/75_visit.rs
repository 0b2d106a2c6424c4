
// ======================================================================== visitors
pub mod vvisit {
use vstd::prelude::*;
use crate::vspec::*;
use crate::asn1_rs::*;
use crate::ber::ber::{BerObject, BerObjectContent};
verus! {
/// one call of a visitor callback: the generic one, or the one of the type of the value; with the depth
pub ghost enum Ev { Ber(OV, int), Ty(CV, int) }
/// the calls made by a traversal of o starting at depth d
pub open spec fn trace(o: OV, d: int) -> Seq<Ev> decreases o {
    seq![Ev::Ber(o, d), Ev::Ty(o.c, d)] + (match o.c { CV::Sequence(l) => traces(l, d + 1), CV::Set(l) => traces(l, d + 1), _ => Seq::empty() })
}
pub open spec fn traces(l: Seq<OV>, d: int) -> Seq<Ev> decreases l { if l.len() == 0 { Seq::empty() } else { traces(l.drop_last(), d) + trace(l.last(), d) } }
/// number of SEQUENCE / SET levels below o
pub open spec fn hgt(o: OV) -> nat decreases o { match o.c { CV::Sequence(l) => 1 + hgts(l), CV::Set(l) => 1 + hgts(l), _ => 0 } }
pub open spec fn hgts(l: Seq<OV>) -> nat decreases l { if l.len() == 0 { 0 } else if hgts(l.drop_last()) >= hgt(l.last()) { hgts(l.drop_last()) } else { hgt(l.last()) } }
pub open spec fn optv(o: Option<&BerObject>) -> CV { match o { Some(o) => CV::Optional(Some(Box::new(ov(*o)))), None => CV::Optional(None) } }
pub proof fn lemma_hgts(l: Seq<OV>, k: int)
    requires 0 <= k < l.len()
    ensures hgt(l[k]) <= hgts(l)
    decreases l.len()
{ if k < l.len() - 1 { lemma_hgts(l.drop_last(), k); assert(l.drop_last()[k] == l[k]); } }
pub proof fn lemma_traces_step(v: Seq<BerObject>, d: int, k: int)
    requires 0 <= k < v.len()
    ensures traces(ovs(v.take(k + 1)), d) == traces(ovs(v.take(k)), d) + trace(ov(v[k]), d), hgt(ov(v[k])) <= hgts(ovs(v))
{ assert(ovs(v.take(k + 1)).drop_last() =~= ovs(v.take(k))); lemma_hgts(ovs(v), k); }
pub proof fn lemma_traces_ends(v: Seq<BerObject>, d: int)
    ensures traces(ovs(v.take(0)), d) == Seq::<Ev>::empty(), v.take(v.len() as int) == v
{ assert(v.take(v.len() as int) =~= v); }
pub broadcast proof fn lemma_ev0(s: Seq<Ev>, a: Ev, b: Ev)
    ensures #[trigger] s.push(a).push(b) == s + (seq![a, b] + Seq::<Ev>::empty()), s.push(a).push(b) == s + seq![a, b]
{ assert(s.push(a).push(b) =~= s + (seq![a, b] + Seq::<Ev>::empty())); assert(s.push(a).push(b) =~= s + seq![a, b]); }
pub broadcast proof fn lemma_ev_assoc(s: Seq<Ev>, a: Seq<Ev>, b: Seq<Ev>)
    ensures #[trigger] ((s + a) + b) == s + (a + b)
{ assert((s + a) + b =~= s + (a + b)); }

// ---- mutable visitors
/// one call of a mutable callback: the value it was given, the value it left, the depth
pub ghost enum Em { Ber(OV, OV, int), Ty(CV, CV, int) }
/// evs are the calls of one traversal that turned o0 into o1: each callback sees the value left by the ones before it
pub open spec fn mrun(o0: OV, o1: OV, evs: Seq<Em>, d: int) -> bool decreases evs.len(), 0nat, 0nat {
    &&& evs.len() >= 2
    &&& match (evs[0], evs[1]) {
        (Em::Ber(b0, a, d0), Em::Ty(c0, c1, d1)) => {
            &&& b0 == o0 && d0 == d && d1 == d && c0 == a.c && o1.h == a.h
            &&& match (c1, o1.c) {
                (CV::Sequence(l), CV::Sequence(l1)) => mruns(l, l1, evs.skip(2), d + 1),
                (CV::Set(l), CV::Set(l1)) => mruns(l, l1, evs.skip(2), d + 1),
                _ => o1.c == c1 && evs.len() == 2,
            }
        }
        _ => false,
    }
}
pub open spec fn mruns(l0: Seq<OV>, l1: Seq<OV>, evs: Seq<Em>, d: int) -> bool decreases evs.len(), 1nat, l0.len() {
    &&& l0.len() == l1.len()
    &&& if l0.len() == 0 { evs.len() == 0 } else {
        exists|j: int| #![trigger evs.skip(j)] 0 <= j <= evs.len() && mruns(l0.drop_last(), l1.drop_last(), evs.take(j), d) && mrun(l0.last(), l1.last(), evs.skip(j), d)
    }
}
pub open spec fn mcall(t0: Seq<Em>, t1: Seq<Em>, o0: OV, o1: OV, d: int) -> bool { t0.len() <= t1.len() && t1.take(t0.len() as int) == t0 && mrun(o0, o1, t1.skip(t0.len() as int), d) }
pub open spec fn mcalls(t0: Seq<Em>, t1: Seq<Em>, l0: Seq<OV>, l1: Seq<OV>, d: int) -> bool { t0.len() <= t1.len() && t1.take(t0.len() as int) == t0 && mruns(l0, l1, t1.skip(t0.len() as int), d) }
pub open spec fn optm(o: Option<&mut BerObject>) -> CV { match o { Some(o) => CV::Optional(Some(Box::new(ov(*o)))), None => CV::Optional(None) } }
#[verifier::prophetic]
pub open spec fn optf(o: Option<&mut BerObject>) -> CV { match o { Some(o) => CV::Optional(Some(Box::new(ov(*final(o))))), None => CV::Optional(None) } }
pub proof fn lemma_mcalls0(t: Seq<Em>, l0: Seq<BerObject>, l1: Seq<BerObject>, d: int)
    ensures mcalls(t, t, ovs(l0.take(0)), ovs(l1.take(0)), d)
{ assert(t.take(t.len() as int) =~= t); }
pub proof fn lemma_mcalls_step(t0: Seq<Em>, t1: Seq<Em>, t2: Seq<Em>, l0: Seq<BerObject>, la: Seq<BerObject>, lb: Seq<BerObject>, k: int, d: int)
    requires 0 <= k < l0.len(), l0.len() == la.len(), la.len() == lb.len(), forall|j: int| 0 <= j < k ==> la[j] == lb[j],
        mcalls(t0, t1, ovs(l0.take(k)), ovs(la.take(k)), d), mcall(t1, t2, ov(l0[k]), ov(lb[k]), d)
    ensures mcalls(t0, t2, ovs(l0.take(k + 1)), ovs(lb.take(k + 1)), d)
{
    assert(ovs(l0.take(k + 1)).drop_last() =~= ovs(l0.take(k)));
    assert(ovs(lb.take(k + 1)).drop_last() =~= ovs(la.take(k)));
    let (e1, e2) = (t1.skip(t0.len() as int), t2.skip(t0.len() as int));
    let j = t1.len() - t0.len();
    assert(e2.take(j) =~= e1) by { assert forall|i: int| 0 <= i < j implies e2[i] == e1[i] by { assert(t2.take(t1.len() as int)[i + t0.len()] == t1[i + t0.len()]); } }
    assert(e2.skip(j) =~= t2.skip(t1.len() as int));
    assert(t2.take(t0.len() as int) =~= t0) by { assert forall|i: int| 0 <= i < t0.len() implies t2[i] == t0[i] by { assert(t2.take(t1.len() as int)[i] == t1[i]); assert(t1.take(t0.len() as int)[i] == t0[i]); } }
}
pub proof fn lemma_mcall_list(t0: Seq<Em>, t1: Seq<Em>, t2: Seq<Em>, e0: Em, e1: Em, l0: Seq<OV>, l1: Seq<OV>, d: int)
    requires t1 == t0.push(e0).push(e1), mcalls(t1, t2, l0, l1, d)
    ensures t0.len() <= t2.len(), t2.take(t0.len() as int) == t0, t2.skip(t0.len() as int).len() >= 2,
        t2.skip(t0.len() as int)[0] == e0, t2.skip(t0.len() as int)[1] == e1, mruns(l0, l1, t2.skip(t0.len() as int).skip(2), d),
{
    assert forall|i: int| 0 <= i < t1.len() implies t2[i] == t1[i] by { assert(t2.take(t1.len() as int)[i] == t1[i]); }
    assert(t2.take(t0.len() as int) =~= t0);
    assert(t2.skip(t0.len() as int).skip(2) =~= t2.skip(t1.len() as int));
}
pub broadcast proof fn lemma_mcall_leaf(t0: Seq<Em>, e0: Em, e1: Em, o0: OV, o1: OV, d: int)
    requires e0 is Ber, e1 is Ty, e0->Ber_0 == o0, e0->Ber_2 == d, e1->Ty_2 == d, e1->Ty_0 == e0->Ber_1.c, o1.h == e0->Ber_1.h, o1.c == e1->Ty_1, !(o1.c is Sequence), !(o1.c is Set)
    ensures #[trigger] mcall(t0, t0.push(e0).push(e1), o0, o1, d)
{
    let t2 = t0.push(e0).push(e1);
    assert(t2.take(t0.len() as int) =~= t0);
    let e = t2.skip(t0.len() as int);
    assert(e.len() == 2 && e[0] == e0 && e[1] == e1);
}
/// the calls of a traversal of a SEQUENCE or SET: the two callbacks of the object itself, then the elements
pub broadcast proof fn lemma_mcall_node(t0: Seq<Em>, t2: Seq<Em>, e0: Em, e1: Em, l0: Seq<OV>, l1: Seq<OV>, d: int)
    requires e0 is Ber, e1 is Ty, #[trigger] mcalls(t0.push(e0).push(e1), t2, l0, l1, d), e0->Ber_2 == d - 1, e1->Ty_2 == d - 1, e1->Ty_0 == e0->Ber_1.c,
    ensures e1->Ty_1 == CV::Sequence(l0) ==> mcall(t0, t2, e0->Ber_0, OV { h: e0->Ber_1.h, c: CV::Sequence(l1) }, d - 1),
        e1->Ty_1 == CV::Set(l0) ==> mcall(t0, t2, e0->Ber_0, OV { h: e0->Ber_1.h, c: CV::Set(l1) }, d - 1),
{ lemma_mcall_list(t0, t0.push(e0).push(e1), t2, e0, e1, l0, l1, d); }
} // verus!
}
