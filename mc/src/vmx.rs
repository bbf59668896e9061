//! Thin helpers over the real VM: reset to a known state, evaluate text, observe.
use crate::engine::H;
use rtforth::core::Core;
use rtforth::memory::Memory;
pub use rtforth::mock_vm::VM;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Obs {
    pub s: Vec<isize>,
    pub f: Vec<u64>,
    pub r: usize,
    pub c: usize,
    pub err: isize,
    pub out: String,
    pub compiling: bool,
}

impl Obs {
    pub fn h(&self) -> H {
        let mut h = H::new().sl(&self.s).i(self.err).u(self.r as u64).u(self.c as u64);
        for x in &self.f {
            h = h.u(*x);
        }
        h.s(&self.out).u(self.compiling as u64)
    }
}

/// A new machine whose free data space is not blank: nothing may depend on what
/// the space that a word takes held before.
pub fn new_vm() -> VM {
    let mut vm = VM::new();
    let (h, l) = (vm.data_space().here(), vm.data_space().limit());
    let s = vm.data_space().start();
    for (k, b) in mem(&mut vm)[h - s..l - s].iter_mut().enumerate() {
        *b = (k % 7) as u8 * 0x25 + 0x11;
    }
    vm
}

/// Put every stack, flag and buffer of the current VM in its start state
/// (the dictionary and data space are left alone).  Errors return to the
/// outer interpreter through `bye`, as an application's handler does.
pub fn reset(vm: &mut VM) {
    vm.set_current_task(0);
    vm.s_stack().reset();
    vm.r_stack().reset();
    vm.f_stack().reset();
    vm.c_stack().reset();
    {
        let st = vm.state();
        st.is_compiling = false;
        st.instruction_pointer = 0;
        st.aborted_word_pointer = 0;
        st.source_index = 0;
        st.source_id = 0;
    }
    vm.set_error(None);
    let a = vm.data_space().system_variables().base_addr();
    unsafe { vm.data_space().put_isize(10, a) };
    if let Some(b) = vm.output_buffer().as_mut() {
        b.clear()
    }
    vm.forward_bitset_mut().clear();
    vm.resolved_bitset_mut().clear();
    for i in 1..5 {
        vm.set_awake(i, false);
    }
    vm.set_awake(0, true);
    if vm.handler() == 0 {
        let h = vm.find("bye").expect("bye");
        vm.set_handler(h);
    }
}

pub fn eval(vm: &mut VM, src: &str) {
    vm.set_source(src);
    vm.evaluate_input();
}

pub fn err(vm: &VM) -> isize {
    match vm.last_error() {
        Some(e) => e.into(),
        None => 0,
    }
}

pub fn out(vm: &mut VM) -> String {
    vm.output_buffer().clone().unwrap_or_default()
}

pub fn clear_out(vm: &mut VM) {
    if let Some(b) = vm.output_buffer().as_mut() {
        b.clear()
    }
}

pub fn obs(vm: &mut VM) -> Obs {
    Obs {
        s: vm.s_stack().as_slice().to_vec(),
        f: vm.f_stack().as_slice().iter().map(|x| x.to_bits()).collect(),
        r: vm.r_stack().len() as usize,
        c: vm.c_stack().len() as usize,
        err: err(vm),
        out: out(vm),
        compiling: vm.state().is_compiling,
    }
}

/// Bytes left in the data space.
pub fn room(vm: &mut VM) -> usize {
    vm.data_space().limit() - vm.data_space().here()
}

/// After an error: what an application's error handler does before going on.
pub fn recover(vm: &mut VM) {
    vm.clear_stacks();
    vm.reset();
    vm.state().instruction_pointer = 0;
}

/// Mixed-radix digits of `idx`, least significant last.
pub fn digits(mut idx: u64, radix: u64, n: usize) -> Vec<usize> {
    let mut v = vec![0; n];
    for i in (0..n).rev() {
        v[i] = (idx % radix) as usize;
        idx /= radix;
    }
    v
}

pub fn fl(t: bool) -> isize {
    if t {
        -1
    } else {
        0
    }
}

/// The whole data space, as bytes.
pub fn mem(vm: &mut VM) -> &'static mut [u8] {
    let (a, b) = (vm.data_space().start(), vm.data_space().limit());
    unsafe { std::slice::from_raw_parts_mut(a as *mut u8, b - a) }
}

/// Replace the VM when its data space is running low; reset it.
pub fn ready(vm: &mut VM, need: usize) {
    if room(vm) < need {
        *vm = new_vm();
    }
    reset(vm);
}

/// Write `s` at `addr` of the data space and return its address.
pub fn poke(vm: &mut VM, addr: usize, s: &[u8]) {
    let a = vm.data_space().start();
    mem(vm)[addr - a..addr - a + s.len()].copy_from_slice(s);
}
