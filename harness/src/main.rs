//! vh: interprets behaviours (generated from the TLA+/Quint specifications) on the real
//! reductionml-core library and reports what it observed.
//!
//! Input: one JSON object per line {"id":..,"ops":[..]} (a session).  Output: one JSON object per
//! line {"id":..,"obs":[..]}, one observation per operation.  A panic in the code under test is
//! an observation ({"panic": msg}), never the end of this process.
mod probe;

use std::collections::HashMap;
use std::io::{BufRead, Cursor, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

use reductionml_core::dense_weights::DenseWeights;
use reductionml_core::explore::enforce_min_prob;
use reductionml_core::object_pool::{Pool, PoolReturnable};
use reductionml_core::parsers::{
    DsJsonParserFactory, JsonParserFactory, TextModeParser, TextModeParserFactory,
    VwTextParserFactory,
};
use reductionml_core::sparse_namespaced_features::{Namespace, SparseFeatures};
use reductionml_core::weights::Weights;
use reductionml_core::workspace::{Configuration, Workspace};
use reductionml_core::{
    BinaryLabel, CBAdfFeatures, CBLabel, Features, FeaturesType, Label, LabelType, Prediction,
    SimpleLabel,
};
use serde_json::{json, Map, Value};

type Res<T> = Result<T, String>;

fn e<T: std::fmt::Display>(x: T) -> String {
    format!("harness: {x}")
}

/// A float as [bits, shortest decimal]; -0 is normalised to 0.
pub fn fl(x: f32) -> Value {
    let x = if x == 0.0 { 0.0 } else { x };
    if x.is_finite() {
        json!([x.to_bits(), x as f64])
    } else {
        json!([x.to_bits(), x.to_string()])
    }
}

pub fn ns_json(ns: &Namespace) -> Value {
    match ns {
        Namespace::Named(h) => json!(format!("n{}", u32::from(*h))),
        Namespace::RawHash(h) => json!(format!("r{}", u32::from(*h))),
        Namespace::Default => json!("default"),
    }
}

/// Canonical rendering: namespaces that hold features, in key order, features in order.
pub fn sparse_json(f: &SparseFeatures) -> Value {
    let mut out = Vec::new();
    let mut total = 0;
    for (ns, it) in f.namespaces() {
        let feats: Vec<Value> = it.map(|(i, v)| json!([u32::from(i), fl(v)])).collect();
        total += feats.len();
        if !feats.is_empty() {
            // a namespace holding features must also be visible to look-ups
            let vis = f.get_namespace(ns).map(|n| n.size()).unwrap_or(0);
            if vis == feats.len() {
                out.push(json!([ns_json(&ns), feats]));
            } else {
                out.push(json!([ns_json(&ns), feats, "hidden", vis]));
            }
        } else if f.get_namespace(ns).is_some() {
            // present, holding nothing
            out.push(json!([ns_json(&ns), []]));
        }
    }
    let all = f.all_features().count();
    if all != total {
        out.push(json!(["all_features", all, "namespaces", total]));
    }
    Value::Array(out)
}

pub fn features_json(f: &Features) -> Value {
    match f {
        Features::SparseSimple(s) => json!({"simple": sparse_json(s)}),
        Features::SparseSimpleRef(s) => json!({"simple": sparse_json(s)}),
        Features::SparseCBAdf(c) => cb_json(c),
        Features::SparseCBAdfRef(c) => cb_json(c),
    }
}

fn cb_json(c: &CBAdfFeatures) -> Value {
    json!({"shared": c.shared.as_ref().map(sparse_json),
           "actions": c.actions.iter().map(sparse_json).collect::<Vec<_>>()})
}

pub fn label_json(l: &Label) -> Value {
    match l {
        Label::Simple(s) => json!({"simple": [fl(s.value()), fl(s.weight())]}),
        Label::Binary(b) => json!({"binary": b.0}),
        Label::CB(c) => json!({"cb": [c.action, fl(c.cost), fl(c.probability)]}),
    }
}

fn pred_json(p: &Prediction) -> Value {
    match p {
        Prediction::Scalar(s) => {
            json!({"type": "Scalar", "prediction": fl(s.prediction), "raw": fl(s.raw_prediction)})
        }
        Prediction::Binary(b) => json!({"type": "Binary", "value": b.0}),
        Prediction::ActionScores(a) => json!({"type": "ActionScores",
            "v": a.0.iter().map(|(i, x)| json!([i, fl(*x)])).collect::<Vec<_>>()}),
        Prediction::ActionProbs(a) => json!({"type": "ActionProbs",
            "v": a.0.iter().map(|(i, x)| json!([i, fl(*x)])).collect::<Vec<_>>()}),
    }
}

fn parse_label(v: &Value) -> Res<Label> {
    if let Some(a) = v.get("simple") {
        return Ok(Label::Simple(SimpleLabel::new(num(&a[0])?, num(&a[1])?)));
    }
    if let Some(b) = v.get("binary") {
        return Ok(Label::Binary(BinaryLabel(b.as_bool().ok_or("bool")?)));
    }
    if let Some(a) = v.get("cb") {
        return Ok(Label::CB(CBLabel::new(
            a[0].as_u64().ok_or("action")? as usize,
            num(&a[1])?,
            num(&a[2])?,
        )));
    }
    Err(format!("harness: bad label {v}"))
}

pub fn num(v: &Value) -> Res<f32> {
    match v {
        Value::Number(n) => Ok(n.as_f64().unwrap() as f32),
        // rationals written [num, den] by the specification
        Value::Array(a) if a.len() == 2 => {
            Ok((a[0].as_f64().ok_or("num")? / a[1].as_f64().ok_or("den")?) as f32)
        }
        Value::String(s) => s.parse::<f32>().map_err(e),
        _ => Err(format!("harness: bad number {v}")),
    }
}

fn make_ns(v: &Value, seed: u32) -> Res<Namespace> {
    match v {
        Value::String(s) if s.is_empty() => Ok(Namespace::Default),
        Value::String(s) => Ok(Namespace::from_name(s, seed)),
        Value::Number(n) => Ok(Namespace::Named((n.as_u64().unwrap() as u32).into())),
        _ => Err(format!("harness: bad namespace {v}")),
    }
}

/// [[ns, [[index, value], ...]], ...]; ns listed with no features is created active and empty.
fn make_sparse(v: &Value, seed: u32) -> Res<SparseFeatures> {
    let mut f = SparseFeatures::new();
    for item in v.as_array().ok_or("harness: features")? {
        let ns = make_ns(&item[0], seed)?;
        let c = f.get_or_create_namespace(ns);
        for x in item[1].as_array().ok_or("harness: feature list")? {
            c.add_feature((x[0].as_u64().ok_or("index")? as u32).into(), num(&x[1])?);
        }
    }
    Ok(f)
}

fn make_features(v: &Value, seed: u32) -> Res<Features<'static>> {
    if let Some(s) = v.get("simple") {
        return Ok(Features::SparseSimple(make_sparse(s, seed)?));
    }
    let shared = match v.get("shared") {
        None | Some(Value::Null) => None,
        Some(s) => Some(make_sparse(s, seed)?),
    };
    let mut actions = Vec::new();
    for a in v["actions"].as_array().ok_or("harness: actions")? {
        actions.push(make_sparse(a, seed)?);
    }
    Ok(Features::SparseCBAdf(CBAdfFeatures { shared, actions }))
}

fn ftype(s: &str) -> FeaturesType {
    if s == "SparseCBAdf" {
        FeaturesType::SparseCBAdf
    } else {
        FeaturesType::SparseSimple
    }
}

fn ltype(s: &str) -> LabelType {
    match s {
        "CB" => LabelType::CB,
        "Binary" => LabelType::Binary,
        _ => LabelType::Simple,
    }
}

fn make_parser(
    fmt: &str,
    ft: FeaturesType,
    lt: LabelType,
    seed: u32,
    bits: u8,
    pool: Arc<Pool<SparseFeatures>>,
) -> Res<Box<dyn TextModeParser>> {
    Ok(match fmt {
        "vw" => Box::new(VwTextParserFactory.create(ft, lt, seed, bits, pool)),
        "json" => Box::new(JsonParserFactory.create(ft, lt, seed, bits, pool)),
        "dsjson" => Box::new(DsJsonParserFactory.create(ft, lt, seed, bits, pool)),
        _ => return Err(format!("harness: format {fmt}")),
    })
}

/// Recursively sorts object keys (maps of weights come out in arbitrary order) and replaces
/// weight maps by sorted lists.
fn canon(v: &Value) -> Value {
    match v {
        Value::Object(m) => {
            let mut keys: Vec<&String> = m.keys().collect();
            keys.sort_by_key(|k| (k.len(), (*k).clone()));
            let mut out = Map::new();
            let mut pairs = Vec::new();
            for k in &keys {
                pairs.push(json!([k, canon(&m[*k])]));
            }
            out.insert("m".into(), Value::Array(pairs));
            Value::Object(out)
        }
        Value::Array(a) => Value::Array(a.iter().map(canon).collect()),
        Value::Number(n) => {
            if n.as_f64() == Some(0.0) {
                json!(0)
            } else {
                v.clone()
            }
        }
        _ => v.clone(),
    }
}

#[derive(Default)]
struct Session {
    ws: HashMap<String, Workspace>,
    feats: HashMap<String, (Features<'static>, Option<Label>)>,
    pools: HashMap<String, Arc<Pool<SparseFeatures>>>,
    bin: HashMap<String, Vec<u8>>,
    js: HashMap<String, Value>,
    wts: HashMap<String, DenseWeights>,
}

fn s<'a>(op: &'a Value, k: &str) -> Res<&'a str> {
    op.get(k)
        .and_then(|v| v.as_str())
        .ok_or_else(|| format!("harness: missing string {k} in {op}"))
}

impl Session {
    fn pool(&mut self, op: &Value) -> Arc<Pool<SparseFeatures>> {
        match op.get("pool").and_then(|v| v.as_str()) {
            Some(name) => self
                .pools
                .entry(name.to_string())
                .or_insert_with(|| Arc::new(Pool::new()))
                .clone(),
            None => match op.get("wspool").and_then(|v| v.as_str()) {
                Some(w) => self.ws[w].features_pool().clone(),
                None => Arc::new(Pool::new()),
            },
        }
    }

    fn types_of(&self, op: &Value) -> Res<(FeaturesType, LabelType, u32, u8)> {
        if let Some(w) = op.get("ws").and_then(|v| v.as_str()) {
            let ws = self.ws.get(w).ok_or("harness: no ws")?;
            let t = ws.get_entry_reduction().types();
            return Ok((
                t.input_features_type(),
                t.input_label_type(),
                ws.global_config().hash_seed(),
                ws.global_config().num_bits(),
            ));
        }
        Ok((
            ftype(s(op, "ftype")?),
            ltype(s(op, "ltype")?),
            op["seed"].as_u64().unwrap_or(0) as u32,
            op["bits"].as_u64().unwrap_or(18) as u8,
        ))
    }

    fn exec(&mut self, op: &Value) -> Res<Value> {
        match s(op, "op")? {
            "new" => {
                let cfg = if let Some(y) = op.get("yaml") {
                    Configuration::from_yaml_str(y.as_str().unwrap())
                } else if let Some(t) = op.get("text") {
                    Configuration::from_json_str(t.as_str().unwrap())
                } else {
                    op["config"].clone().try_into()
                };
                let cfg = match cfg {
                    Ok(c) => c,
                    Err(x) => return Ok(json!({"err": x.to_string(), "stage": "config"})),
                };
                match Workspace::new(cfg) {
                    Ok(w) => {
                        let t = w.get_entry_reduction().types();
                        let r = json!({"ok": {
                            "typename": w.get_entry_reduction().typename(),
                            "label": format!("{:?}", t.input_label_type()),
                            "features": format!("{:?}", t.input_features_type()),
                            "prediction": format!("{:?}", t.output_prediction_type()),
                            "bits": w.global_config().num_bits(),
                            "seed": w.global_config().hash_seed()}});
                        self.ws.insert(s(op, "ws")?.into(), w);
                        Ok(r)
                    }
                    Err(x) => Ok(json!({"err": x.to_string(), "stage": "create"})),
                }
            }
            "drop" => {
                self.ws.remove(s(op, "ws")?);
                Ok(json!({"ok": true}))
            }
            // replace the regressor at the bottom of a stack by a scripted, recording one
            "probe" => probe::install(self.ws.get_mut(s(op, "ws")?).ok_or("no ws")?, op),
            "script" => {
                probe::script(s(op, "probe")?, op)?;
                Ok(json!({"ok": true}))
            }
            "calls" => Ok(json!({"calls": probe::take_calls(s(op, "probe")?)})),
            "feats" => {
                let seed = op["seed"].as_u64().unwrap_or(0) as u32;
                let f = make_features(&op["spec"], seed)?;
                let l = match op.get("label") {
                    None | Some(Value::Null) => None,
                    Some(l) => Some(parse_label(l)?),
                };
                self.feats.insert(s(op, "f")?.into(), (f, l));
                Ok(json!({"ok": true}))
            }
            "parse" => {
                let (ft, lt, seed, bits) = self.types_of(op)?;
                let pool = self.pool(op);
                let before = pool.len();
                let parser = make_parser(s(op, "fmt")?, ft, lt, seed, bits, pool.clone())?;
                let text = s(op, "text")?;
                match parser.parse_chunk(text) {
                    Ok((f, l)) => {
                        let f: Features<'static> = f;
                        let r = json!({"features": features_json(&f),
                                       "label": l.as_ref().map(label_json),
                                       "recycled": before - pool.len().min(before)});
                        if let Some(name) = op.get("f").and_then(|v| v.as_str()) {
                            self.feats.insert(name.into(), (f, l));
                        }
                        Ok(r)
                    }
                    Err(x) => Ok(json!({"err": x.to_string()})),
                }
            }
            "chunks" => {
                let (ft, lt, seed, bits) = self.types_of(op)?;
                let pool = self.pool(op);
                let parser = make_parser(s(op, "fmt")?, ft, lt, seed, bits, pool)?;
                let mut input = Cursor::new(s(op, "text")?.as_bytes().to_vec());
                let mut out = Vec::new();
                let mut buf = String::new();
                let reuse = op["reuse"].as_bool().unwrap_or(false);
                for _ in 0..1000 {
                    match parser.get_next_chunk(&mut input, buf) {
                        Ok(Some(c)) => {
                            out.push(json!(c));
                            buf = if reuse { c } else { String::new() };
                        }
                        Ok(None) => return Ok(json!({"chunks": out})),
                        Err(x) => return Ok(json!({"err": x.to_string(), "chunks": out})),
                    }
                }
                Ok(json!({"err": "more than 1000 chunks", "chunks": out.len()}))
            }
            // a whole stream: every chunk read through a reader of the given capacity, and parsed
            "stream" => {
                let (ft, lt, seed, bits) = self.types_of(op)?;
                let pool = self.pool(op);
                let parser = make_parser(s(op, "fmt")?, ft, lt, seed, bits, pool)?;
                let cap = op["cap"].as_u64().unwrap_or(8192) as usize;
                let mut input = std::io::BufReader::with_capacity(
                    cap,
                    Cursor::new(s(op, "text")?.as_bytes().to_vec()),
                );
                let mut out = Vec::new();
                let mut buf = String::new();
                let reuse = op["reuse"].as_bool().unwrap_or(false);
                for _ in 0..5000 {
                    match parser.get_next_chunk(&mut input, std::mem::take(&mut buf)) {
                        Ok(Some(c)) => {
                            let r: std::result::Result<(Features<'static>, Option<Label>), _> =
                                parser.parse_chunk(&c);
                            match r {
                                Ok((f, l)) => out.push(json!({"features": features_json(&f),
                                    "label": l.as_ref().map(label_json)})),
                                Err(x) => out.push(json!({"err": x.to_string()})),
                            }
                            if reuse {
                                buf = c;
                            }
                        }
                        Ok(None) => {
                            // the end of a stream stays the end
                            let again = parser.get_next_chunk(&mut input, String::new());
                            return Ok(json!({"examples": out, "again": !matches!(again, Ok(None))}));
                        }
                        Err(x) => return Ok(json!({"err": x.to_string(), "examples": out})),
                    }
                }
                Ok(json!({"err": "more than 5000 chunks"}))
            }
            "show" => {
                let (f, l) = self.feats.get(s(op, "f")?).ok_or("no f")?;
                Ok(json!({"features": features_json(f), "label": l.as_ref().map(label_json)}))
            }
            "copy" => {
                let (f, l) = self.feats.get(s(op, "from")?).ok_or("no f")?;
                let c = (f.clone(), *l);
                self.feats.insert(s(op, "f")?.into(), c);
                Ok(json!({"ok": true}))
            }
            "recycle" => {
                let pool = self.pool(op);
                let (f, _) = self.feats.remove(s(op, "f")?).ok_or("no f")?;
                f.clear_and_return_object(pool.as_ref());
                Ok(json!({"ok": pool.len()}))
            }
            k @ ("predict" | "learn" | "ptl") => {
                let label = match op.get("label") {
                    None | Some(Value::Null) => None,
                    Some(l) => Some(parse_label(l)?),
                };
                let fname = s(op, "f")?;
                let wname = s(op, "ws")?;
                let (f, l) = self.feats.get_mut(fname).ok_or("no f")?;
                let label = label.or(*l);
                let w = self.ws.get_mut(wname).ok_or("no ws")?;
                match k {
                    "predict" => Ok(pred_json(&w.predict(f))),
                    "learn" => {
                        w.learn(f, &label.ok_or("harness: no label")?);
                        Ok(json!({"ok": true}))
                    }
                    _ => Ok(pred_json(
                        &w.predict_then_learn(f, &label.ok_or("harness: no label")?),
                    )),
                }
            }
            "save" => {
                let w = self.ws.get(s(op, "ws")?).ok_or("no ws")?;
                let slot = s(op, "slot")?;
                if s(op, "fmt")? == "bin" {
                    match w.serialize_model() {
                        Ok(b) => {
                            let r = json!({"len": b.len(), "fnv": fnv(&b)});
                            if let Some(p) = op.get("file").and_then(|v| v.as_str()) {
                                std::fs::write(p, &b).map_err(e)?;
                            }
                            self.bin.insert(slot.into(), b);
                            Ok(r)
                        }
                        Err(x) => Ok(json!({"err": x.to_string()})),
                    }
                } else {
                    match w.serialize_to_json() {
                        Ok(j) => {
                            // through text, as the command line does
                            let text = serde_json::to_string_pretty(&j).map_err(e)?;
                            let back: Value = serde_json::from_str(&text).map_err(e)?;
                            let r = if op["full"].as_bool().unwrap_or(false) {
                                json!({"model": back})
                            } else {
                                json!({"fnv": fnv(canon(&back).to_string().as_bytes())})
                            };
                            self.js.insert(slot.into(), back);
                            Ok(r)
                        }
                        Err(x) => Ok(json!({"err": x.to_string()})),
                    }
                }
            }
            "put" => {
                self.js.insert(s(op, "slot")?.into(), op["model"].clone());
                Ok(json!({"ok": true}))
            }
            "load" => {
                let slot = s(op, "slot")?;
                let r = if s(op, "fmt")? == "bin" {
                    Workspace::create_from_model(self.bin.get(slot).ok_or("no slot")?)
                } else {
                    Workspace::deserialize_from_json(self.js.get(slot).ok_or("no slot")?)
                };
                match r {
                    Ok(w) => {
                        self.ws.insert(s(op, "ws")?.into(), w);
                        Ok(json!({"ok": true}))
                    }
                    Err(x) => Ok(json!({"err": x.to_string()})),
                }
            }
            // the model in full (JSON export), canonicalised
            "dump" => {
                let w = self.ws.get(s(op, "ws")?).ok_or("no ws")?;
                match w.serialize_to_json() {
                    Ok(j) => {
                        if op["full"].as_bool().unwrap_or(false) {
                            Ok(json!({"model": j}))
                        } else {
                            // what a user of the library can ask a workspace about itself
                            let g = w.global_config();
                            let t = w.get_entry_reduction().types();
                            let about = json!([g.num_bits(), g.hash_seed(), g.constant_feature_enabled(),
                                serde_json::to_value(g.interactions()).map_err(e)?,
                                format!("{:?} {:?} {:?}", t.input_features_type(), t.input_label_type(), t.output_prediction_type())]);
                            Ok(json!({"fnv": fnv(canon(&j).to_string().as_bytes()), "about": about}))
                        }
                    }
                    Err(x) => Ok(json!({"err": x.to_string()})),
                }
            }
            "savefile" => {
                let w = self.ws.get(s(op, "ws")?).ok_or("no ws")?;
                let b = w.serialize_model().map_err(e)?;
                std::fs::write(s(op, "path")?, b).map_err(e)?;
                Ok(json!({"ok": true}))
            }
            // damaged copies of a saved model: the first `n` bytes, or the model with bytes replaced
            "damaged" => {
                let slot = s(op, "slot")?;
                let all = self.bin.get(slot).ok_or("no slot")?;
                let n = op["n"].as_u64().map(|n| n as usize).unwrap_or(all.len()).min(all.len());
                let mut b = all[..n].to_vec();
                for x in op["set"].as_array().unwrap_or(&vec![]) {
                    let at = x[0].as_u64().ok_or("harness: at")? as usize;
                    if at < b.len() {
                        b[at] = x[1].as_u64().ok_or("harness: byte")? as u8;
                    }
                }
                match Workspace::create_from_model(&b) {
                    Ok(w) => {
                        let again = w.serialize_model().map_err(e)?;
                        let r = json!({"loaded": &again == all});
                        self.ws.insert(s(op, "ws")?.into(), w);
                        Ok(r)
                    }
                    Err(x) => Ok(json!({"refused": x.to_string()})),
                }
            }
            "loadfile" => {
                let b = std::fs::read(s(op, "path")?).map_err(e)?;
                let r = if op.get("fmt").and_then(|v| v.as_str()) == Some("json") {
                    Workspace::deserialize_from_json(&serde_json::from_slice(&b).map_err(e)?)
                } else {
                    Workspace::create_from_model(&b)
                };
                match r {
                    Ok(w) => {
                        self.ws.insert(s(op, "ws")?.into(), w);
                        Ok(json!({"ok": true}))
                    }
                    Err(x) => Ok(json!({"err": x.to_string()})),
                }
            }
            // run another program (the command line tool) in the middle of a session
            "exec" => {
                let argv: Vec<&str> = op["argv"].as_array().ok_or("argv")?.iter().filter_map(|x| x.as_str()).collect();
                let out = std::process::Command::new(argv[0])
                    .args(&argv[1..])
                    .stdin(std::process::Stdio::null())
                    .output()
                    .map_err(e)?;
                if let Some(p) = op.get("stdout").and_then(|v| v.as_str()) {
                    std::fs::write(p, &out.stdout).map_err(e)?;
                }
                let code = out.status.code().unwrap_or(-1);
                if code != 0 {
                    let msg = String::from_utf8_lossy(&out.stderr);
                    return Ok(json!({"err": msg.chars().take(300).collect::<String>(), "code": code}));
                }
                Ok(json!({"ok": code}))
            }
            // run a whole data file through the library one example at a time
            "train" => {
                let (ft, lt, seed, bits) = self.types_of(op)?;
                let pool = self.pool(op);
                let parser = make_parser(s(op, "fmt")?, ft, lt, seed, bits, pool)?;
                let data = std::fs::read(s(op, "path")?).map_err(e)?;
                let mut input = Cursor::new(data);
                let w = self.ws.get_mut(s(op, "ws")?).ok_or("no ws")?;
                let mut preds = Vec::new();
                let mut nfeat = Vec::new();
                let mut labels = Vec::new();
                while let Some(c) = parser
                    .get_next_chunk(&mut input, String::new())
                    .map_err(|x| format!("chunk: {x}"))?
                {
                    let (mut f, l) = match parser.parse_chunk(&c) {
                        Ok(x) => x,
                        Err(x) => return Ok(json!({"err": x.to_string(), "preds": preds})),
                    };
                    let l = match l {
                        Some(l) => l,
                        None => return Ok(json!({"err": "no label", "preds": preds})),
                    };
                    preds.push(
                        serde_json::to_value(w.predict(&mut f)).map_err(|x| x.to_string())?,
                    );
                    nfeat.push(count_features(&f));
                    labels.push(label_json(&l));
                    w.learn(&mut f, &l);
                }
                Ok(json!({"preds": preds, "nfeat": nfeat, "labels": labels}))
            }
            "enforce" => {
                let mut el: Vec<(usize, f32)> = Vec::new();
                for (i, x) in op["p"].as_array().ok_or("p")?.iter().enumerate() {
                    el.push((i, num(x)?));
                }
                match enforce_min_prob(
                    num(&op["eps"])?,
                    op["zero"].as_bool().unwrap_or(false),
                    &mut el,
                ) {
                    Ok(()) => Ok(json!({"v": el.iter().map(|(i, x)| json!([i, fl(*x)])).collect::<Vec<_>>()})),
                    Err(x) => Ok(json!({"err": x.to_string()})),
                }
            }
            // raw weight storage
            "wnew" => {
                let w = DenseWeights::new(
                    (op["size"].as_u64().ok_or("size")? as u32).into(),
                    (op["models"].as_u64().unwrap_or(1) as u8).into(),
                    (op["states"].as_u64().unwrap_or(6) as u8).into(),
                )
                .map_err(|x| x.to_string())?;
                self.wts.insert(s(op, "w")?.into(), w);
                Ok(json!({"ok": true}))
            }
            "wset" => {
                let w = self.wts.get_mut(s(op, "w")?).ok_or("no w")?;
                let st = w.state_at_mut(
                    (op["i"].as_u64().unwrap() as u32).into(),
                    (op["m"].as_u64().unwrap_or(0) as u8).into(),
                );
                let k = op["k"].as_u64().unwrap() as usize;
                st[k] = num(&op["v"])?;
                Ok(json!({"len": st.len()}))
            }
            "wget" => {
                let w = self.wts.get(s(op, "w")?).ok_or("no w")?;
                let i: u32 = op["i"].as_u64().unwrap() as u32;
                let m: u8 = op["m"].as_u64().unwrap_or(0) as u8;
                let st: Vec<Value> = w.state_at(i.into(), m.into()).iter().map(|x| fl(*x)).collect();
                Ok(json!({"state": st, "weight": fl(w.weight_at(i.into(), m.into()))}))
            }
            "wround" => {
                // through the model encodings used for saved models
                let w = self.wts.get(s(op, "w")?).ok_or("no w")?;
                let how = s(op, "fmt")?;
                let back: DenseWeights = if how == "json" {
                    let nd = reductionml_core::dense_weights::DenseWeightsWithNDArray::from_dense_weights(w.clone());
                    let v = serde_json::to_string(&nd).map_err(e)?;
                    let nd2: reductionml_core::dense_weights::DenseWeightsWithNDArray =
                        serde_json::from_str(&v).map_err(|x| x.to_string())?;
                    nd2.to_dense_weights()
                } else {
                    let v = serde_json::to_string(w).map_err(e)?;
                    serde_json::from_str(&v).map_err(|x| x.to_string())?
                };
                let eq = &back == w;
                self.wts.insert(s(op, "to")?.into(), back);
                Ok(json!({"equal": eq}))
            }
            // features seen by the expansion (visitor) itself
            "foreach" => {
                let seed = op["seed"].as_u64().unwrap_or(0) as u32;
                let bits = op["bits"].as_u64().unwrap_or(18) as u8;
                let f = make_sparse(&op["spec"], seed)?;
                let mut pairs = Vec::new();
                for p in op["pairs"].as_array().unwrap_or(&vec![]) {
                    pairs.push((make_ns(&p[0], seed)?, make_ns(&p[1], seed)?));
                }
                let mut triples = Vec::new();
                for p in op["triples"].as_array().unwrap_or(&vec![]) {
                    triples.push((make_ns(&p[0], seed)?, make_ns(&p[1], seed)?, make_ns(&p[2], seed)?));
                }
                let mut w = IdentityWeights {
                    state: (0..(1u64 << bits)).map(|i| i as f32).collect(),
                };
                let constant = op["constant"].as_bool().unwrap_or(false);
                let mut out1 = Vec::new();
                reductionml_core::weights::foreach_feature(
                    0.into(), &f, &w, &pairs, &triples, bits, constant,
                    |v, wt| out1.push(json!([wt as u64, fl(v)])),
                );
                let mut out2 = Vec::new();
                reductionml_core::weights::foreach_feature_with_state(
                    0.into(), &f, &w, &pairs, &triples, bits, constant,
                    |v, st| out2.push(json!([st[0] as u64, fl(v)])),
                );
                let mut out3 = Vec::new();
                reductionml_core::weights::foreach_feature_with_state_mut(
                    0.into(), &f, &mut w, &pairs, &triples, bits, constant,
                    |v, st| out3.push(json!([st[0] as u64, fl(v)])),
                );
                Ok(json!({"predict": out1, "state": out2, "update": out3}))
            }
            other => Err(format!("harness: unknown op {other}")),
        }
    }
}

struct IdentityWeights {
    state: Vec<f32>,
}
impl Weights for IdentityWeights {
    fn weight_at(&self, i: reductionml_core::FeatureIndex, _m: reductionml_core::ModelIndex) -> f32 {
        self.state[u32::from(i) as usize]
    }
    fn weight_at_mut(&mut self, i: reductionml_core::FeatureIndex, _m: reductionml_core::ModelIndex) -> &mut f32 {
        &mut self.state[u32::from(i) as usize]
    }
    fn state_at(&self, i: reductionml_core::FeatureIndex, _m: reductionml_core::ModelIndex) -> &[f32] {
        let i = u32::from(i) as usize;
        &self.state[i..i + 1]
    }
    fn state_at_mut(&mut self, i: reductionml_core::FeatureIndex, _m: reductionml_core::ModelIndex) -> &mut [f32] {
        let i = u32::from(i) as usize;
        &mut self.state[i..i + 1]
    }
}

fn count_features(f: &Features) -> usize {
    match f {
        Features::SparseSimple(x) => x.all_features().count(),
        Features::SparseSimpleRef(x) => x.all_features().count(),
        Features::SparseCBAdf(c) => {
            c.shared.as_ref().map_or(0, |x| x.all_features().count())
                + c.actions.iter().map(|x| x.all_features().count()).sum::<usize>()
        }
        Features::SparseCBAdfRef(c) => {
            c.shared.as_ref().map_or(0, |x| x.all_features().count())
                + c.actions.iter().map(|x| x.all_features().count()).sum::<usize>()
        }
    }
}

fn fnv(b: &[u8]) -> String {
    // two independent 64-bit hashes
    let mut h: u64 = 0xcbf29ce484222325;
    let mut g: u64 = 0x9E3779B97F4A7C15;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
        g = (g.rotate_left(7) ^ *x as u64).wrapping_mul(0xff51afd7ed558ccd);
    }
    format!("{h:016x}{g:016x}")
}

thread_local! {
    static PANIC_AT: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

fn main() {
    // where the latest panic of this thread came from
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| l.file().to_string()).unwrap_or_default();
        PANIC_AT.with(|p| *p.borrow_mut() = at);
    }));
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|x| x == "--profile").unwrap_or(false) {
        println!("{}", json!({"debug_assertions": cfg!(debug_assertions)}));
        return;
    }
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = stdout.lock();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let sess: Value = match serde_json::from_str(&line) {
            Ok(v) => v,
            Err(x) => {
                writeln!(out, "@@{}", json!({"harness_error": x.to_string()})).unwrap();
                continue;
            }
        };
        let mut st = Session::default();
        let mut obs = Vec::new();
        probe::reset();
        for op in sess["ops"].as_array().unwrap_or(&vec![]) {
            let r = catch_unwind(AssertUnwindSafe(|| st.exec(op)));
            match r {
                Ok(Ok(v)) => obs.push(v),
                Ok(Err(m)) => {
                    if m.starts_with("harness:") {
                        obs.push(json!({"harness_error": m}));
                    } else {
                        obs.push(json!({"err": m}));
                    }
                }
                Err(p) => {
                    let msg = p
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string()))
                        .unwrap_or_else(|| "panic".into());
                    let msg: String = msg.chars().take(300).collect();
                    obs.push(json!({"panic": msg, "at": PANIC_AT.with(|p| p.borrow().clone())}));
                }
            }
        }
        writeln!(out, "@@{}", json!({"id": sess["id"], "obs": obs})).unwrap();
        out.flush().unwrap();
    }
}
