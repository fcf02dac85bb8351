// ---- std maps: views as finite maps, keys in order ------------------------------
/// what two keys must agree on to be the same key
pub trait VxKey { type V; spec fn kv(&self) -> Self::V; }
impl VxKey for u128 { type V = u128; open spec fn kv(&self) -> u128 { *self } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { k: core::marker::PhantomData<(K, V)> }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { k: core::marker::PhantomData<(K, V)> }
pub struct VxKeys { pub s: Ghost<Seq<u128>> }
/// the keys of a map in ascending order
pub open spec fn ascending(s: Seq<u128>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
pub open spec fn keys_of<V>(m: Map<u128, V>, s: Seq<u128>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(#[trigger] s[i])
    &&& forall|k: u128| m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == k
}
impl VxKeys {
    #[verifier::external_body]
    pub fn rev(self) -> (r: VxKeys) ensures r.s@ == self.s@.reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn cloned(self) -> (r: VxKeys) ensures r.s@ == self.s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn copied(self) -> (r: VxKeys) ensures r.s@ == self.s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<u128>) ensures r@ == self.s@ { unimplemented!() }
}
impl<V> BTreeMap<u128, V> {
    #[verifier::external_body]
    pub fn keys(&self) -> (r: VxKeys) ensures ascending(r.s@), keys_of(self@, r.s@) { unimplemented!() }
}
impl<K: VxKey, V> View for BTreeMap<K, V> { type V = Map<<K as VxKey>::V, V>; uninterp spec fn view(&self) -> Map<<K as VxKey>::V, V>; }
impl<K: VxKey, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<<K as VxKey>::V, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(k.kv()) && *v == self@[k.kv()], None => !self@.contains_key(k.kv()) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self)@.contains_key(k.kv()) && *v == old(self)@[k.kv()] && final(self)@ == old(self)@.insert(k.kv(), *final(v)),
            None => !old(self)@.contains_key(k.kv()) && final(self)@ == old(self)@ }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.kv(), v)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k.kv())
    { unimplemented!() }
}
impl<K: VxKey, V> View for HashMap<K, V> { type V = Map<<K as VxKey>::V, V>; uninterp spec fn view(&self) -> Map<<K as VxKey>::V, V>; }
impl<K: VxKey, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<<K as VxKey>::V, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(k.kv()) && *v == self@[k.kv()], None => !self@.contains_key(k.kv()) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self)@.contains_key(k.kv()) && *v == old(self)@[k.kv()] && final(self)@ == old(self)@.insert(k.kv(), *final(v)),
            None => !old(self)@.contains_key(k.kv()) && final(self)@ == old(self)@ }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.kv(), v)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k.kv())
    { unimplemented!() }
}
