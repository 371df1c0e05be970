// Appended (as a child module of the crate root) to a verbatim copy of
// /repo/src by harness/build.py.  It re-exports what /repo exposes to Python
// plus the crate-level building blocks, and offers a C ABI to the Python shim.
#![allow(clippy::all, clippy::pedantic, clippy::nursery, dead_code)]

pub mod api {
    pub use crate::rust_stuff::*;
}

/// Building blocks below the Python surface.
#[cfg(feature = "parts")]
pub mod parts {
    pub use crate::{
        instrs::{CompProg, GetInstr, Instr, Params, Parse, Slot},
        prover::{Prover, ProverResult},
        rules::{apply_rule, make_rule, Op, Rule},
        tape::{BasicTape, EnumTape, GetSig, IndexTape},
    };
}

#[cfg(feature = "tapes")]
pub mod tapes {
    pub use crate::tape::{
        BasicTape, ColorCount, EnumTape, GetSig, IndexTape, Signature,
    };
}

#[cfg(feature = "rules")]
pub mod rules {
    pub use crate::{
        rules::{apply_rule, make_rule, Op, Rule},
        tape::{Count, Counts, Index, IndexTape},
    };
}

#[cfg(feature = "macros")]
pub mod macros {
    pub use crate::{
        instrs::{CompProg, GetInstr, Parse},
        macros::{make_backsymbol_macro, make_block_macro},
    };
}

/// What /repo has for its own tests only.
#[cfg(feature = "inner")]
pub mod inner {
    pub use crate::{
        instrs::{CompProg, Parse},
        machine::{quick_term_or_rec, run_for_infrul},
    };
}

use std::ffi::{c_char, CStr, CString};
use std::panic::{catch_unwind, AssertUnwindSafe};

use serde_json::{json, Value};

use crate::rust_stuff as rs;
use rs::*;

fn slot_of(v: &Value) -> (u64, u64) {
    (v[0].as_u64().unwrap(), v[1].as_u64().unwrap())
}

fn instr_of(v: &Value) -> Option<(u64, bool, u64)> {
    if v.is_null() {
        return None;
    }
    Some((
        v[0].as_u64().unwrap(),
        v[1].as_bool().unwrap(),
        v[2].as_u64().unwrap(),
    ))
}

fn result_of(r: &MachineResult) -> Value {
    json!({
        "result": format!("{:?}", r.result()),
        "steps": r.steps(), "cycles": r.cycles(), "marks": r.marks(),
        "rulapp": r.rulapp(),
        "blanks": r.blanks().into_iter().collect::<Vec<_>>(),
        "undfnd": r.undfnd(), "simple_termination": r.simple_termination(),
        "halted": r.halted(), "infrul": r.infrul(), "spnout": r.spnout(),
        "xlimit": r.xlimit(), "cfglim": r.cfglim(),
    })
}

fn call(name: &str, a: &Value) -> Value {
    let s = |i: usize| a[i].as_str().unwrap();
    let n = |i: usize| a[i].as_u64().unwrap();
    match name {
        "py_cant_halt" => json!(py_cant_halt(s(0), n(1) as usize)),
        "py_cant_blank" => json!(py_cant_blank(s(0), n(1) as usize)),
        "py_cant_spin_out" => json!(py_cant_spin_out(s(0), n(1) as usize)),
        "py_is_connected" => json!(py_is_connected(s(0), n(1))),
        "py_opt_block" => json!(py_opt_block(s(0), n(1) as usize)),
        "py_quick_term_or_rec" => {
            json!(py_quick_term_or_rec(s(0), n(1) as usize))
        }
        "py_segment_cant_halt" => {
            json!(py_segment_cant_halt(s(0), n(1) as usize))
        }
        "py_show_comp" => {
            let comp = a[0]
                .as_array()
                .unwrap()
                .iter()
                .map(|p| (slot_of(&p[0]), instr_of(&p[1]).unwrap()))
                .collect();
            let params =
                if a[1].is_null() { None } else { Some(slot_of(&a[1])) };
            json!(py_show_comp(comp, params))
        }
        "tcompile" => {
            json!(tcompile(s(0)).into_iter().collect::<Vec<_>>())
        }
        "show_state" => json!(show_state(a[0].as_u64())),
        "show_slot" => json!(show_slot(slot_of(&a[0]))),
        "read_slot" => json!(read_slot(s(0))),
        "show_instr" => json!(show_instr(instr_of(&a[0]))),
        "read_instr" => json!(read_instr(s(0))),
        "run_prover" => result_of(&run_prover(s(0), n(1))),
        "run_quick_machine" => result_of(&run_quick_machine(s(0), n(1))),
        "tree_progs" => json!(tree_progs(
            slot_of(&a[0]),
            a[1].as_bool().unwrap(),
            n(2)
        )),
        _ => panic!("unknown bridge call {name}"),
    }
}

fn give(text: String) -> *mut c_char {
    CString::new(text.replace('\0', " ")).unwrap().into_raw()
}

#[unsafe(no_mangle)]
pub extern "C" fn bb_call(
    name: *const c_char,
    args: *const c_char,
) -> *mut c_char {
    let (name, args) = unsafe {
        (
            CStr::from_ptr(name).to_str().unwrap(),
            CStr::from_ptr(args).to_str().unwrap(),
        )
    };
    let args: Value = serde_json::from_str(args).unwrap();
    match catch_unwind(AssertUnwindSafe(|| call(name, &args))) {
        Ok(v) => give(format!("+{v}")),
        Err(e) => {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| {
                    e.downcast_ref::<&str>().map(|s| (*s).to_owned())
                })
                .unwrap_or_default();
            give(format!("-{msg}"))
        }
    }
}

#[unsafe(no_mangle)]
pub extern "C" fn bb_free(p: *mut c_char) {
    drop(unsafe { CString::from_raw(p) });
}

#[unsafe(no_mangle)]
pub extern "C" fn bb_quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}

#[unsafe(no_mangle)]
pub extern "C" fn bb_pc_new(state: u64, cycle: i32) -> *mut PastConfigs {
    Box::into_raw(Box::new(PastConfigs::new(state, cycle)))
}

#[unsafe(no_mangle)]
pub extern "C" fn bb_pc_free(p: *mut PastConfigs) {
    drop(unsafe { Box::from_raw(p) });
}

/// 1: deltas written, 0: None, -1: panic
#[unsafe(no_mangle)]
pub extern "C" fn bb_pc_next(
    p: *mut PastConfigs,
    state: u64,
    cycle: i32,
    out: *mut i32,
) -> i32 {
    let pc = unsafe { &mut *p };
    match catch_unwind(AssertUnwindSafe(|| pc.next_deltas(state, cycle))) {
        Ok(Some((a, b, c))) => {
            unsafe {
                *out = a;
                *out.add(1) = b;
                *out.add(2) = c;
            }
            1
        }
        Ok(None) => 0,
        Err(_) => -1,
    }
}

#[unsafe(no_mangle)]
pub extern "C" fn bb_pc_del(p: *mut PastConfigs, state: u64) {
    unsafe { &mut *p }.delete_configs(state);
}
