// Spec vocabulary: identities
//@skip_type ProcessFlags
#[derive(Copy, Clone)]
pub struct ProcessFlags { pub b: u32 }
impl ProcessFlags {
    pub const TRAP_EXIT: ProcessFlags = ProcessFlags { b: 1 };
    pub fn contains(&self, o: ProcessFlags) -> (r: bool) ensures r == (self.b & o.b == o.b) { self.b & o.b == o.b }
    pub fn empty() -> (r: ProcessFlags) ensures r.b == 0, !trapf(r) { assert(0u32 & 1u32 != 1u32) by (bit_vector); ProcessFlags { b: 0 } }
}
pub open spec fn trapf(f: ProcessFlags) -> bool { f.b & 1 == 1 }
pub open spec fn pidid(p: Pid) -> u64 { match p { Pid::Local(n) => n@, Pid::Remote(n, _) => n@ } }
pub broadcast proof fn lm_pidid(p: Pid) ensures #[trigger] pidid(p) != 0 { match p { Pid::Local(n) => { ax_nz(n); } Pid::Remote(n, _) => { ax_nz(n); } } }
pub proof fn lm_lpid(id: u64) requires id != 0 ensures pidid(lpid(id)) == id, lpid(id) is Local { ax_nz2(id); }
pub open spec fn pidnode(p: Pid) -> u64 { match p { Pid::Local(n) => 0, Pid::Remote(_, m) => m } }
pub open spec fn lpid(id: u64) -> Pid { Pid::Local(nz(id)) }
pub open spec fn refid(p: Reference) -> u64 { match p { Reference::Local(n) => n@, Reference::Remote(n, _) => n@ } }
pub open spec fn refnode(p: Reference) -> u64 { match p { Reference::Local(n) => 0, Reference::Remote(_, m) => m } }
pub open spec fn dest_local(d: Dest) -> bool { match d { Dest::Pid(p) => p is Local, Dest::Named(_, n) => n is Local, Dest::Alias(r) => r is Local } }
