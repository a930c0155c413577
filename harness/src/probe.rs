//! A scripted, recording reduction put in place of the regressor at the bottom of a stack (by
//! editing the exported model), so that what a reduction asks of the one beneath it is visible.
use std::cell::RefCell;
use std::collections::HashMap;

use reductionml_core::reduction::{DepthInfo, ReductionImpl, ReductionWrapper};
use reductionml_core::workspace::Workspace;
use reductionml_core::{Features, Label, ModelIndex, Prediction, ScalarPrediction};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

#[derive(Default)]
struct State {
    /// scalar predictions returned in order (cyclically), or by feature count when absent
    scalars: Vec<f32>,
    next: usize,
    /// instead: a linear function of the features, coefficient (index mod 13) - 6
    linear: bool,
    calls: Vec<Value>,
}

thread_local! {
    static STATE: RefCell<HashMap<String, State>> = RefCell::new(HashMap::new());
}

#[derive(Serialize, Deserialize)]
struct VerifProbe {
    probe: String,
}

fn record(name: &str, v: Value) {
    STATE.with(|s| s.borrow_mut().entry(name.into()).or_default().calls.push(v));
}

#[typetag::serde]
impl ReductionImpl for VerifProbe {
    fn predict(&self, f: &mut Features, _d: &mut DepthInfo, _m: ModelIndex) -> Prediction {
        record(&self.probe, json!({"call": "predict", "features": crate::features_json(f)}));
        let x = STATE.with(|s| {
            let mut s = s.borrow_mut();
            let st = s.entry(self.probe.clone()).or_default();
            if st.linear {
                return Some(linear(f));
            }
            if st.scalars.is_empty() {
                None
            } else {
                let x = st.scalars[st.next % st.scalars.len()];
                st.next += 1;
                Some((x, -x))
            }
        });
        let (prediction, raw_prediction) = x.unwrap_or((0.0, 0.0));
        ScalarPrediction { prediction, raw_prediction }.into()
    }
    fn learn(&mut self, f: &mut Features, l: &Label, _d: &mut DepthInfo, _m: ModelIndex) {
        record(
            &self.probe,
            json!({"call": "learn", "features": crate::features_json(f), "label": crate::label_json(l)}),
        );
    }
    fn children(&self) -> Vec<&ReductionWrapper> {
        vec![]
    }
}

/// The clamped prediction differs from the raw one, so that using the wrong one shows.
fn linear(f: &Features) -> (f32, f32) {
    let sum = |s: &reductionml_core::sparse_namespaced_features::SparseFeatures| -> f32 {
        s.all_features().map(|(i, v)| v * ((u32::from(i) % 13) as f32 - 6.0)).sum()
    };
    let raw = match f {
        Features::SparseSimple(s) => sum(s),
        Features::SparseSimpleRef(s) => sum(s),
        _ => f32::NAN,
    };
    (raw.abs().min(1.0) + 500.0, raw)
}

pub fn reset() {
    STATE.with(|s| s.borrow_mut().clear());
}

pub fn take_calls(name: &str) -> Vec<Value> {
    STATE.with(|s| std::mem::take(&mut s.borrow_mut().entry(name.into()).or_default().calls))
}

/// Sets the scalars returned by the next predictions.
pub fn script(name: &str, op: &Value) -> Result<(), String> {
    let mut v = Vec::new();
    let linear = op["linear"].as_bool().unwrap_or(false);
    for x in op["scalars"].as_array().unwrap_or(&Vec::new()) {
        v.push(crate::num(x)?);
    }
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        let st = s.entry(name.into()).or_default();
        st.scalars = v;
        st.next = 0;
        st.linear = linear;
    });
    Ok(())
}

fn replace(v: &mut Value, name: &str) -> usize {
    match v {
        Value::Object(m) => {
            let is_base = m.get("typename").and_then(|x| x.as_str()) == Some("Coin")
                && m.get("reduction").is_some();
            if is_base {
                m.insert("reduction".into(), json!({"type": "VerifProbe", "probe": name}));
                return 1;
            }
            m.values_mut().map(|x| replace(x, name)).sum()
        }
        Value::Array(a) => a.iter_mut().map(|x| replace(x, name)).sum(),
        _ => 0,
    }
}

pub fn install(w: &mut Workspace, op: &Value) -> Result<Value, String> {
    let name = op["probe"].as_str().ok_or("harness: probe name")?;
    let mut j = w.serialize_to_json().map_err(|e| e.to_string())?;
    let n = replace(&mut j, name);
    if n != 1 {
        return Ok(json!({"err": format!("{n} regressors found")}));
    }
    match Workspace::deserialize_from_json(&j) {
        Ok(x) => {
            *w = x;
            Ok(json!({"ok": true}))
        }
        Err(e) => Ok(json!({"err": e.to_string()})),
    }
}
