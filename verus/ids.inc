verus! {
//@@ struct fem_domain/domain.rs IdTracker
impl IdTracker {
//@@ fn fem_domain/domain.rs IdTracker::new
//@@ params start
        ensures r.next_id == start
//@@ endfn
//@@ fn fem_domain/domain.rs IdTracker::next_id
        requires old(self).next_id < usize::MAX
        ensures r == old(self).next_id, final(self).next_id == old(self).next_id + 1
//@@ endfn
//@@ fn fem_domain/domain.rs IdTracker::next_two_ids
        requires old(self).next_id + 2 <= usize::MAX
        ensures r@[0] == old(self).next_id, r@[1] == old(self).next_id + 1, final(self).next_id == old(self).next_id + 2
//@@ endfn
}
}
