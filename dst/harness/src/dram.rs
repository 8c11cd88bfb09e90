//! The DRAM, whose constructors are behind a hook.
use crate::case::*;
use crate::elem::El;
use crate::real::*;
use dam::channel::*;

#[cfg(feature = "dram")]
#[allow(clippy::too_many_arguments)]
pub fn make<'a>(
    requests: usize,
    bw: usize,
    latency: u64,
    cap: usize,
    fill: bool,
    behavior: (bool, bool),
    ports: &[DramPort],
    t: &mut dyn FnMut(&Ch) -> Sender<El>,
    r: &mut dyn FnMut(&Ch) -> Receiver<El>,
    a: DramAdd,
) -> DramSlot<'a> {
    use dam::templates::datastore::Behavior;
    use dam::templates::dram::{sim_hooks::*, DRAM};
    let mut x = DRAM::<El, El, El>::new(
        config(requests, bw, latency, cap),
        Behavior { mod_address: behavior.0, use_default_value: behavior.1 },
    );
    if fill {
        x.fill(|a| El(crate::refm::dram_fill(a)));
    }
    for p in ports {
        match p {
            DramPort::Read { addr, size, data } => x.add_reader(read_bundle(r(addr), r(size), t(data))),
            DramPort::Write { addr, size, data, ack } => {
                x.add_writer(write_bundle(r(addr), r(size), r(data), t(ack)))
            }
        }
    }
    a.add(x)
}

#[cfg(not(feature = "dram"))]
#[allow(clippy::too_many_arguments)]
pub fn make<'a>(
    _: usize,
    _: usize,
    _: u64,
    _: usize,
    _: bool,
    _: (bool, bool),
    _: &[DramPort],
    _: &mut dyn FnMut(&Ch) -> Sender<El>,
    _: &mut dyn FnMut(&Ch) -> Receiver<El>,
    _: DramAdd,
) -> DramSlot<'a> {
    unreachable!("built without the DRAM hooks")
}
