//! Execution of plans against the real library.
//! This crate is compiled with coverage callbacks, so everything instantiated in it is preemptible.
pub mod exec9 {
    use measureme as mm;
    pub const V: u32 = 9;
    #[inline] fn sid(v: u64) -> mm::StringId { mm::StringId::new(v) }
    #[inline] fn sid_raw(s: mm::StringId) -> u64 { s.as_u64() }
    #[inline] fn vid(v: u64) -> mm::StringId { mm::StringId::new_virtual(v) }
    #[inline] fn eid(v: u64) -> mm::EventId { mm::EventId::from_u64(v) }
    #[inline] fn eid_raw(e: mm::EventId) -> u64 { e.as_u64() }
    #[inline] fn addr_raw(a: mm::Addr) -> u64 { a.0 }
    fn new_hw(plan: &Plan, shm: &Shm) -> Option<Profiler> {
        let mut c = None;
        let hw = plan.hw.as_ref().unwrap();
        unsafe {
            record(OP_CTR, || match mm::counters::Counter::by_name(&hw.name) {
                Ok(x) => { c = Some(x); Res::Done(0, 0) }
                Err(e) => { shm.put_blob(BLOB_ERR, 0, e.to_string().as_bytes()); Res::Err }
            });
            let r = rec(OP_CTR);
            let (mut f, mut m) = (0, 0);
            sim_pmu_open_now(&mut f, &mut m);
            r.r0 = f as u64; r.r1 = m as u64;
        }
        let mut got = None;
        let c = c?;
        unsafe { record(OP_NEW, || match Profiler::with_counter(&plan.path[..], c) { Ok(p) => { got = Some(p); Res::Done(0, 0) } Err(_) => Res::Err }); }
        got
    }
    include!("exec_impl.rs");
}
pub mod exec8 {
    use measureme_10 as mm;
    pub const V: u32 = 8;
    #[inline] fn sid(v: u64) -> mm::StringId { mm::StringId::new(v as u32) }
    #[inline] fn sid_raw(s: mm::StringId) -> u64 { s.as_u32() as u64 }
    #[inline] fn vid(v: u64) -> mm::StringId { mm::StringId::new_virtual(v as u32) }
    #[inline] fn eid(v: u64) -> mm::EventId { mm::EventId::from_u32(v as u32) }
    #[inline] fn eid_raw(e: mm::EventId) -> u64 { e.as_u32() as u64 }
    #[inline] fn addr_raw(a: mm::Addr) -> u64 { a.0 as u64 }
    fn new_hw(_: &Plan, _: &Shm) -> Option<Profiler> { None }
    include!("exec_impl.rs");
}
