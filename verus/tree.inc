verus! {
// ------------------------------------------------------------------ trees of cells and edges
pub ghost struct Tree { pub n: int, pub par: spec_fn(int) -> Option<int>, pub kids: spec_fn(int) -> Seq<usize> }
impl Tree {
    /// parent and child references are mutually inverse, and parents come first
    pub open spec fn ok(self) -> bool {
        &&& 0 <= self.n <= usize::MAX
        &&& forall|e: int, k: int| 0 <= e < self.n && 0 <= k < (self.kids)(e).len() ==> e < #[trigger] (self.kids)(e)[k] < self.n && (self.par)((self.kids)(e)[k] as int) == Some(e)
        &&& forall|e: int, j: int, k: int| 0 <= e < self.n && 0 <= j < k < (self.kids)(e).len() ==> #[trigger] (self.kids)(e)[j] != #[trigger] (self.kids)(e)[k]
        &&& forall|c: int| 0 <= c < self.n && #[trigger] (self.par)(c) is Some ==> 0 <= (self.par)(c)->0 < c && (self.kids)((self.par)(c)->0).contains(c as usize)
    }
    /// d lies below e
    pub open spec fn under(self, e: int, d: int) -> bool
        decreases d
    { 0 <= d < self.n && match (self.par)(d) { None => false, Some(p) => p == e || (0 <= p < d && self.under(e, p)) } }
    /// d is one of the first k children of e or lies below one of them
    pub open spec fn part(self, e: int, k: int, d: int) -> bool {
        exists|j: int| 0 <= j < k && (#[trigger] (self.kids)(e)[j] == d || self.under((self.kids)(e)[j] as int, d))
    }
    /// the chain to the base, nearest first
    pub open spec fn chain(self, e: int) -> Seq<usize>
        decreases e
    { match (self.par)(e) { None => seq![], Some(p) => if 0 <= p < e { seq![p as usize] + self.chain(p) } else { seq![] } } }
    pub proof fn above(self, e: int, d: int)
        requires self.ok(), self.under(e, d), 0 <= e
        ensures e < d < self.n
        decreases d
    { let p = (self.par)(d)->0; if p != e { self.above(e, p); } }
    pub proof fn trans(self, a: int, b: int, c: int)
        requires self.ok(), self.under(a, b), self.under(b, c), 0 <= a, 0 <= b
        ensures self.under(a, c)
        decreases c
    { self.above(b, c); let p = (self.par)(c)->0; if p != b { self.trans(a, b, p); } }
    /// what lies below e: its children and what lies below them
    pub proof fn split(self, e: int, d: int)
        requires self.ok(), 0 <= e < self.n
        ensures self.under(e, d) <==> self.part(e, (self.kids)(e).len() as int, d)
        decreases d
    {
        let s = (self.kids)(e);
        if self.under(e, d) {
            self.above(e, d);
            let p = (self.par)(d)->0;
            if p == e { let k = s.index_of(d as usize); assert(s[k] == d); }
            else {
                self.split(e, p);
                let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j] == p || self.under(s[j] as int, p));
                assert(self.under(s[j] as int, d));
            }
        }
        if self.part(e, s.len() as int, d) {
            let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j] == d || self.under(s[j] as int, d));
            assert(self.under(e, s[j] as int));
            if s[j] != d { self.trans(e, s[j] as int, d); }
        }
    }
    /// what lies below different children of a cell is different
    pub proof fn apart(self, e: int, j: int, k: int, d: int)
        requires self.ok(), 0 <= e < self.n, 0 <= j < (self.kids)(e).len(), 0 <= k < (self.kids)(e).len(), j != k,
            (self.kids)(e)[j] == d || self.under((self.kids)(e)[j] as int, d)
        ensures (self.kids)(e)[k] != d, !self.under((self.kids)(e)[k] as int, d)
        decreases d
    {
        let (a, b) = ((self.kids)(e)[j] as int, (self.kids)(e)[k] as int);
        assert(a != b) by { if j < k {} else {} }
        if a == d {
            if self.under(b, d) { self.above(b, d); if e == b {} else { self.above(b, e); } }
        } else {
            let p = (self.par)(d)->0;
            self.above(a, d);
            if p == a { if self.under(b, d) { if p != b { self.apart(e, j, k, p); } } if b == d { assert(p == e); } }
            else {
                self.apart(e, j, k, p);
                if b == d { assert(p == e); self.above(a, e); }
            }
        }
    }
}
/// exactly the items of f, each once, behind what was there before
pub open spec fn adds(old: Seq<usize>, new: Seq<usize>, f: spec_fn(int) -> bool) -> bool {
    &&& old.len() <= new.len() && new.take(old.len() as int) == old
    &&& forall|i: int| old.len() <= i < new.len() ==> f(#[trigger] new[i] as int)
    &&& forall|i: int, j: int| old.len() <= i < j < new.len() ==> #[trigger] new[i] != #[trigger] new[j]
    &&& forall|d: int| #[trigger] f(d) ==> exists|i: int| old.len() <= i < new.len() && #[trigger] new[i] == d
}
pub proof fn adds_more(a: Seq<usize>, b: Seq<usize>, c: Seq<usize>, f: spec_fn(int) -> bool, g: spec_fn(int) -> bool, h: spec_fn(int) -> bool)
    requires adds(a, b, f), adds(b, c, g), forall|d: int| #[trigger] h(d) <==> f(d) || g(d), forall|d: int| !(#[trigger] f(d) && g(d))
    ensures adds(a, c, h)
{
    assert(c.take(a.len() as int) =~= a) by { assert forall|i: int| 0 <= i < a.len() implies c[i] == a[i] by { assert(c[i] == c.take(b.len() as int)[i]); assert(b[i] == b.take(a.len() as int)[i]); } }
    assert forall|i: int| a.len() <= i < b.len() implies #[trigger] c[i] == b[i] by { assert(c[i] == c.take(b.len() as int)[i]); }
    assert forall|i: int| a.len() <= i < c.len() implies h(#[trigger] c[i] as int) by { if i < b.len() { assert(f(b[i] as int)); } else { assert(g(c[i] as int)); } }
    assert forall|i: int, j: int| a.len() <= i < j < c.len() implies #[trigger] c[i] != #[trigger] c[j] by {
        if j < b.len() { assert(b[i] != b[j]); } else if i < b.len() { assert(f(b[i] as int)); assert(g(c[j] as int)); } else { }
    }
    assert forall|d: int| #[trigger] h(d) implies exists|i: int| a.len() <= i < c.len() && #[trigger] c[i] == d by {
        if f(d) { let i = choose|i: int| a.len() <= i < b.len() && #[trigger] b[i] == d; assert(c[i] == d); }
        else { assert(g(d)); let i = choose|i: int| b.len() <= i < c.len() && #[trigger] c[i] == d; assert(c[i] == d); }
    }
}
pub open spec fn elem_tree(m: Mesh) -> Tree {
    Tree { n: m.elems@.len() as int, par: |c: int| if 0 <= c < m.elems@.len() && m.elems@[c].ancestors@.len() > 0 { Some(m.elems@[c].ancestors@.last().0 as int) } else { None },
        kids: |e: int| if 0 <= e < m.elems@.len() { match m.elems@[e].children { None => Seq::<usize>::empty(), Some(v) => v@ } } else { Seq::<usize>::empty() } }
}
pub open spec fn edge_tree(m: Mesh) -> Tree {
    Tree { n: m.edges@.len() as int, par: |c: int| if 0 <= c < m.edges@.len() { match m.edges@[c].parent { None => None, Some(p) => Some(p as int) } } else { None },
        kids: |e: int| if 0 <= e < m.edges@.len() { match m.edges@[e].children { None => Seq::<usize>::empty(), Some(v) => v@ } } else { Seq::<usize>::empty() } }
}
/// with the item itself or without
pub open spec fn subtree(t: Tree, e: int, incl: bool) -> spec_fn(int) -> bool { |d: int| (incl && d == e) || t.under(e, d) }
pub open spec fn some_of(t: Tree, e: int, k: int, incl: bool) -> spec_fn(int) -> bool { |d: int| (incl && d == e) || t.part(e, k, d) }
/// one more child
pub proof fn next_child(t: Tree, e: int, k: int, incl: bool, a: Seq<usize>, b: Seq<usize>, c: Seq<usize>)
    requires t.ok(), 0 <= e < t.n, 0 <= k < (t.kids)(e).len(), adds(a, b, some_of(t, e, k, incl)), adds(b, c, subtree(t, (t.kids)(e)[k] as int, true))
    ensures adds(a, c, some_of(t, e, k + 1, incl))
{
    let s = (t.kids)(e);
    let (f, g, h) = (some_of(t, e, k, incl), subtree(t, s[k] as int, true), some_of(t, e, k + 1, incl));
    assert forall|d: int| #[trigger] h(d) <==> f(d) || g(d) by {
        if h(d) && !(incl && d == e) { let j = choose|j: int| 0 <= j < k + 1 && (#[trigger] s[j] == d || t.under(s[j] as int, d)); assert(s[j] == s[j]); }
        if g(d) { assert(s[k] == d || t.under(s[k] as int, d)); }
        if f(d) && !(incl && d == e) { let j = choose|j: int| 0 <= j < k && (#[trigger] s[j] == d || t.under(s[j] as int, d)); assert(s[j] == d || t.under(s[j] as int, d)); }
    }
    assert forall|d: int| !(#[trigger] f(d) && g(d)) by {
        if f(d) && g(d) {
            if incl && d == e { if t.under(s[k] as int, e) { t.above(s[k] as int, e); } }
            else { let j = choose|j: int| 0 <= j < k && (#[trigger] s[j] == d || t.under(s[j] as int, d)); t.apart(e, j, k, d); }
        }
    }
    adds_more(a, b, c, f, g, h);
}
pub proof fn all_children(t: Tree, e: int, incl: bool, a: Seq<usize>, b: Seq<usize>)
    requires t.ok(), 0 <= e < t.n, adds(a, b, some_of(t, e, (t.kids)(e).len() as int, incl))
    ensures adds(a, b, subtree(t, e, incl))
{
    let (f, g) = (some_of(t, e, (t.kids)(e).len() as int, incl), subtree(t, e, incl));
    assert forall|d: int| #[trigger] f(d) implies g(d) by { t.split(e, d); }
    assert forall|d: int| #[trigger] g(d) implies f(d) by { t.split(e, d); }
}
pub proof fn first_item(t: Tree, e: int, incl: bool, a: Seq<usize>, b: Seq<usize>)
    requires b == (if incl { a.push(e as usize) } else { a }), 0 <= e <= usize::MAX
    ensures adds(a, b, some_of(t, e, 0, incl))
{ assert(b.take(a.len() as int) =~= a); assert(incl ==> b[a.len() as int] == e); }
impl Edge {
//@@ fn fem_domain/domain/mesh/edge.rs Edge::child_ids
        ensures match self.children { Some(v) => r is Some && r->0@ == v@, None => r is None }
//@@ endfn
//@@ fn fem_domain/domain/mesh/edge.rs Edge::has_children
        ensures r == (self.children is Some)
//@@ endfn
//@@ fn fem_domain/domain/mesh/edge.rs Edge::parent_id
        ensures r == self.parent
//@@ endfn
//@@ fn fem_domain/domain/mesh/edge.rs Edge::child_node_id
        ensures r == self.child_node
//@@ endfn
}
}
