fn wamp.(*SessionScopeIDGenerator).NextID(s) (r)
helper
modifies s.id
ensures next: old(s.id) <= 9007199254740992 ==> r == (old(s.id) == 9007199254740992 ? 1 : old(s.id) + 1)
ensures kept: s.id == r
ensures [I01] valid: old(s.id) <= 9007199254740992 ==> 1 <= r && r <= 9007199254740992

fn wamp.GenerateID() (r)
ensures [I01] valid: 1 <= r && r <= 9007199254740992
