verus! {
// ------------------------------------------------------------------ trusted shim: names, text and the text file written
pub struct IoError { }
impl VFrom<IoError> for IoError {
    open spec fn vfrom_req(e: IoError) -> bool { true }
    open spec fn vfrom_spec(e: IoError) -> IoError { e }
    fn vfrom(e: IoError) -> (r: IoError) { e }
}
#[verifier::external_body]
pub struct FName { s: String }
impl View for FName { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl FName {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &str) ensures r@ == self@ { &self.s }
}
/// how a value is written
pub trait VShow { spec fn shown(&self) -> Seq<char>; spec fn shown_to(&self, p: int) -> Seq<char>; spec fn debugged(&self) -> Seq<char>; }
impl VShow for usize { uninterp spec fn shown(&self) -> Seq<char>; uninterp spec fn shown_to(&self, p: int) -> Seq<char>; uninterp spec fn debugged(&self) -> Seq<char>; }
impl VShow for F { uninterp spec fn shown(&self) -> Seq<char>; uninterp spec fn shown_to(&self, p: int) -> Seq<char>; uninterp spec fn debugged(&self) -> Seq<char>; }
impl VShow for str { open spec fn shown(&self) -> Seq<char> { self@ } uninterp spec fn shown_to(&self, p: int) -> Seq<char>; uninterp spec fn debugged(&self) -> Seq<char>; }
impl VShow for String { open spec fn shown(&self) -> Seq<char> { self@ } uninterp spec fn shown_to(&self, p: int) -> Seq<char>; uninterp spec fn debugged(&self) -> Seq<char>; }
impl VShow for Duration { uninterp spec fn shown(&self) -> Seq<char>; uninterp spec fn shown_to(&self, p: int) -> Seq<char>; uninterp spec fn debugged(&self) -> Seq<char>; }
impl<'a, T: VShow + ?Sized> VShow for &'a T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } open spec fn shown_to(&self, p: int) -> Seq<char> { (**self).shown_to(p) } open spec fn debugged(&self) -> Seq<char> { (**self).debugged() } }
#[verifier::external_body]
pub struct VText { s: String }
impl View for VText { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VText {
    #[verifier::external_body]
    pub fn new() -> (r: VText) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn lit(self, x: &str) -> (r: VText) ensures r@ == self@ + x@ { unimplemented!() }
    #[verifier::external_body]
    pub fn show<T: VShow + ?Sized>(self, x: &T) -> (r: VText) ensures r@ == self@ + x.shown() { unimplemented!() }
    #[verifier::external_body]
    pub fn show_to<T: VShow + ?Sized>(self, x: &T, p: usize) -> (r: VText) ensures r@ == self@ + x.shown_to(p as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn debug<T: VShow + ?Sized>(self, x: &T) -> (r: VText) ensures r@ == self@ + x.debugged() { unimplemented!() }
    #[verifier::external_body]
    pub fn text(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub struct Duration { d: u64 }
pub struct TimeError { }
/// the clock shows a time after 1970
#[derive(Clone, Copy)]
pub struct SystemTime { pub t: u64 }
impl SystemTime {
    pub const UNIX_EPOCH: SystemTime = SystemTime { t: 0 };
    #[verifier::external_body]
    pub fn now() -> (r: SystemTime) { unimplemented!() }
    #[verifier::external_body]
    pub fn duration_since(&self, o: SystemTime) -> (r: Result<Duration, TimeError>) ensures r is Ok { unimplemented!() }
}
#[verifier::external_body]
pub struct File { f: std::fs::File }
impl File { #[verifier::external_body] pub fn create(p: &str) -> (r: Result<File, IoError>) { unimplemented!() } }
/// what has been written through the writer, from the start of the (new) file
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BufWriter<T> { w: T }
impl<T> View for BufWriter<T> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl<T> BufWriter<T> {
    #[verifier::external_body]
    pub fn new(f: T) -> (r: BufWriter<T>) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn put(&mut self, x: VText) -> (r: Result<(), IoError>) ensures r is Ok ==> final(self)@ == old(self)@ + x@ { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { m: std::collections::HashMap<K, V> }
impl<V> View for HashMap<String, V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
impl<V> HashMap<String, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &String) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &String) -> (r: Option<&V>) ensures match r { Some(v) => self@.dom().contains(k@) && *v == self@[k@], None => !self@.dom().contains(k@) } { unimplemented!() }
}
//@@ enum fem_domain/domain/fields.rs UniformFieldError
//@@ struct fem_domain/domain/fields.rs FieldQuantity
//@@ struct fem_domain/domain/fields.rs UniformFieldSpace
/// the boxed error
pub enum BoxError { Field(UniformFieldError), Io(IoError) }
impl VFrom<IoError> for BoxError {
    open spec fn vfrom_req(e: IoError) -> bool { true }
    open spec fn vfrom_spec(e: IoError) -> BoxError { BoxError::Io(e) }
    fn vfrom(e: IoError) -> (r: BoxError) { BoxError::Io(e) }
}
impl VFrom<UniformFieldError> for BoxError {
    open spec fn vfrom_req(e: UniformFieldError) -> bool { true }
    open spec fn vfrom_spec(e: UniformFieldError) -> BoxError { BoxError::Field(e) }
    fn vfrom(e: UniformFieldError) -> (r: BoxError) { BoxError::Field(e) }
}
// ------------------------------------------------------------------ the grid of points
/// n points from a to b
pub open spec fn spaced(v: Seq<F>, a: real, b: real, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] v[i])@ == (i as real) * ((b - a) / ((n - 1) as real)) + a }
//@@ fn fem_domain/domain/fields.rs uniform_range
//@@ params min, max, n
        requires n >= 2
        ensures spaced(r@, min@, max@, n as int)
//@@ acc 0 Vec<F>
//@@ loop 0
        __hi0 == n, spaced(__a0@, min@, max@, __i0 as int) || __a0@.len() == __i0, step@ == (max@ - min@) / ((n - 1) as int as real),
            forall|i: int| 0 <= i < __i0 ==> (#[trigger] __a0@[i])@ == (i as real) * step@ + min@,
//@@ endfn
// ------------------------------------------------------------------ quantities
pub open spec fn gridded(v: Seq<Vec<F>>, nx: int, ny: int) -> bool { v.len() == nx && forall|m: int| 0 <= m < nx ==> (#[trigger] v[m])@.len() == ny }
impl FieldQuantity {
//@@ fn fem_domain/domain/fields.rs FieldQuantity::new text
//@@ params name
        ensures r.values@ == Map::<usize, Vec<Vec<F>>>::empty(), r.name@ == name@
//@@ endfn
//@@ fn fem_domain/domain/fields.rs FieldQuantity::insert_elem_values
//@@ params elem_id, values
//@@ abort old(self).values@.dom().contains(elem_id)
        ensures !old(self).values@.dom().contains(elem_id), final(self).values@ == old(self).values@.insert(elem_id, values), final(self).name == old(self).name
//@@ endfn
}
}
