use crate::{arr, s};
use krates::{Cmd, Feature, Kid, LockOptions, ParsedFeature, PkgSpec, cm};
use serde_json::{Value, json};

fn kid_of(r: &str) -> Kid {
    Kid::from(cm::PackageId { repr: r.to_owned() })
}

pub fn kid(cmd: &Value) -> Value {
    let k = kid_of(s(&cmd["repr"]));
    json!({"status": "ok", "name": k.name(), "version": k.version(), "source": k.source(),
        "display": k.to_string()})
}

pub fn kidcmp(cmd: &Value) -> Value {
    use std::hash::{BuildHasher, Hash, Hasher};
    let ks: Vec<Kid> = arr(&cmd["reprs"]).iter().map(|r| kid_of(s(r))).collect();
    let bh = std::collections::hash_map::RandomState::new();
    let h = |k: &Kid| {
        let mut h = bh.build_hasher();
        k.hash(&mut h);
        h.finish()
    };
    let mut m = Vec::new();
    let mut hashes_ok = true;
    for a in &ks {
        let mut row = Vec::new();
        for b in &ks {
            row.push(match a.cmp(b) {
                std::cmp::Ordering::Less => -1,
                std::cmp::Ordering::Equal => 0,
                std::cmp::Ordering::Greater => 1,
            });
            if a == b && h(a) != h(b) {
                hashes_ok = false;
            }
            if (a == b) != (a.cmp(b) == std::cmp::Ordering::Equal) || a.partial_cmp(b) != Some(a.cmp(b)) {
                hashes_ok = false;
            }
        }
        m.push(row);
    }
    json!({"status": "ok", "cmp": m, "consistent": hashes_ok})
}

pub fn spec(cmd: &Value) -> Value {
    match s(&cmd["s"]).parse::<PkgSpec>() {
        Ok(p) => json!({"status": "ok", "name": p.name,
            "hasver": p.version.is_some(), "ver": p.version.map(|v| v.to_string()).unwrap_or_default(),
            "hasurl": p.url.is_some(), "url": p.url.unwrap_or_default()}),
        Err(krates::Error::InvalidPkgSpec(e)) => json!({"status": "err", "msg": e}),
        Err(e) => json!({"status": "err", "msg": format!("other: {e}")}),
    }
}

/// Which of the packages of the metadata match each spec
pub fn specmatch(cmd: &Value) -> Value {
    let md = match crate::build::metadata(&cmd["md"]) {
        Ok(m) => m,
        Err(e) => return json!({"status": "mderr", "msg": e}),
    };
    let mut out = Vec::new();
    for sp in arr(&cmd["specs"]) {
        out.push(match s(sp).parse::<PkgSpec>() {
            Ok(p) => json!({"ok": true, "m": md.packages.iter().map(|k| p.matches(k)).collect::<Vec<_>>()}),
            Err(e) => json!({"ok": false, "m": [], "msg": e.to_string()}),
        });
    }
    json!({"status": "ok", "got": out})
}

pub fn make_cmd(v: &Value) -> Cmd {
    let mut c = Cmd::new();
    for op in arr(&v["calls"]) {
        match s(&op["c"]) {
            "cargo_path" => c.cargo_path(s(&op["v"])),
            "manifest_path" => c.manifest_path(s(&op["v"])),
            "current_dir" => c.current_dir(s(&op["v"])),
            "no_default_features" => c.no_default_features(),
            "all_features" => c.all_features(),
            "features" => c.features(arr(&op["v"]).iter().map(|f| s(f).to_owned())),
            "lock_opts" => c.lock_opts(LockOptions {
                frozen: op["frozen"].as_bool().unwrap(),
                locked: op["locked"].as_bool().unwrap(),
                offline: op["offline"].as_bool().unwrap(),
            }),
            "other_options" => c.other_options(arr(&op["v"]).iter().map(|f| s(f).to_owned())),
            x => panic!("harness: cmd call {x}"),
        };
    }
    c
}

fn describe(mdc: &cm::MetadataCommand) -> Value {
    let c = mdc.cargo_command();
    json!({
        "program": c.get_program().to_str().unwrap(),
        "args": c.get_args().map(|a| a.to_str().unwrap()).collect::<Vec<_>>(),
        "cwd": c.get_current_dir().map(|p| p.to_str().unwrap()).unwrap_or(""),
        "hascwd": c.get_current_dir().is_some(),
        "envs": c.get_envs().map(|(k, v)| json!([k.to_str().unwrap(), v.map(|v| v.to_str().unwrap()).unwrap_or("")])).collect::<Vec<_>>(),
    })
}

pub fn cmd(cmd: &Value) -> Value {
    let mdc: cm::MetadataCommand = make_cmd(cmd).into();
    let mut o = describe(&mdc);
    o["status"] = json!("ok");
    o
}

/// MetadataCommand used directly
pub fn mdc(cmd: &Value) -> Value {
    let mut c = cm::MetadataCommand::new();
    for op in arr(&cmd["calls"]) {
        match s(&op["c"]) {
            "cargo_path" => c.cargo_path(s(&op["v"])),
            "manifest_path" => c.manifest_path(s(&op["v"])),
            "current_dir" => c.current_dir(s(&op["v"])),
            "no_deps" => c.no_deps(),
            "other_options" => c.other_options(arr(&op["v"]).iter().map(|f| s(f).to_owned()).collect::<Vec<_>>()),
            "env" => c.env(s(&op["k"]), s(&op["v"])),
            x => panic!("harness: mdc call {x}"),
        };
    }
    let mut o = describe(&c);
    o["status"] = json!("ok");
    o
}

/// Runs a (stand-in) cargo executable
pub fn exec(cmd: &Value) -> Value {
    let mut mdc: cm::MetadataCommand = make_cmd(cmd).into();
    mdc.verbose(cmd["verbose"].as_bool().unwrap_or(false));
    let build = if cmd["build"].as_bool().unwrap_or(false) {
        let r: Result<krates::Krates, _> = krates::Builder::new().build(mdc.clone(), krates::NoneFilter);
        match r {
            Ok(_) => "ok",
            Err(krates::Error::NoResolveGraph) => "NoResolveGraph",
            Err(krates::Error::NoRootKrates) => "NoRootKrates",
            Err(krates::Error::Metadata(_)) => "Metadata",
            Err(krates::Error::InvalidPkgSpec(_)) => "InvalidPkgSpec",
        }
    } else {
        ""
    };
    match mdc.exec() {
        Ok(m) => json!({"status": "ok", "err": "", "wsroot": m.workspace_root.as_str(), "hasresolve": m.resolve.is_some(),
            "stderr": "", "msg": "", "build": build}),
        Err(e) => {
            let k = match &e {
                cm::Error::CargoMetadata { .. } => "CargoMetadata",
                cm::Error::Io(_) => "Io",
                cm::Error::Utf8(_) => "Utf8",
                cm::Error::ErrUtf8(_) => "ErrUtf8",
                cm::Error::Json(_) => "Json",
                cm::Error::NoJson => "NoJson",
            };
            json!({"status": "ok", "err": k, "msg": e.to_string(), "wsroot": "", "hasresolve": false, "build": build,
                "stderr": match &e { cm::Error::CargoMetadata { stderr } => stderr.as_str(), _ => "" }})
        }
    }
}

/// Deserialize, and serialize again
pub fn md(cmd: &Value) -> Value {
    let text = match &cmd["text"] {
        Value::String(t) => t.clone(),
        _ => cmd["md"].to_string(),
    };
    let parsed = cm::MetadataCommand::parse(&text);
    let ways = ways(&text, parsed.as_ref().ok());
    match parsed {
        Err(e) => json!({"status": "err", "msg": e.to_string(), "ways": ways}),
        Ok(m) => {
            let ser = serde_json::to_value(&m).expect("serialize");
            let again = match serde_json::from_value::<cm::Metadata>(ser.clone()) {
                Ok(m2) => {
                    let dbg = format!("{m:?}") == format!("{m2:?}");
                    json!({"ok": true, "same": dbg && serde_json::to_value(&m2).unwrap() == ser, "msg": ""})
                }
                Err(e) => json!({"ok": false, "same": false, "msg": e.to_string()}),
            };
            json!({"status": "ok", "fields": fields(&m), "again": again, "ser": ser, "ways": ways})
        }
    }
}

/// The same document read in the other ways serde_json offers: which of them do not give the same
fn ways(text: &str, parsed: Option<&cm::Metadata>) -> Vec<&'static str> {
    let want = parsed.map(|m| format!("{m:?}"));
    let v: Value = serde_json::from_str(text).expect("harness: document");
    let escaped = escape_keys(&v);
    let got: [(_, Result<cm::Metadata, serde_json::Error>); 5] = [
        ("from_slice", serde_json::from_slice(text.as_bytes())),
        ("from_reader", serde_json::from_reader(text.as_bytes())),
        ("escaped keys", serde_json::from_str(&escaped)),
        ("pretty", serde_json::from_str(&serde_json::to_string_pretty(&v).unwrap())),
        ("from_value", serde_json::from_value(v)),
    ];
    got.into_iter().filter(|(_, m)| m.as_ref().ok().map(|m| format!("{m:?}")) != want).map(|(w, _)| w).collect()
}

/// Written with an escape in each key
fn escape_keys(v: &Value) -> String {
    match v {
        Value::Array(a) => format!("[{}]", a.iter().map(escape_keys).collect::<Vec<_>>().join(",")),
        Value::Object(o) => {
            let item = |(k, v): (&String, &Value)| {
                let esc: String = k.encode_utf16().map(|u| format!("\\u{u:04x}")).collect();
                format!("\"{esc}\":{}", escape_keys(v))
            };
            format!("{{{}}}", o.iter().map(item).collect::<Vec<_>>().join(","))
        }
        _ => v.to_string(),
    }
}

fn opt<T: ToString>(o: &Option<T>) -> Value {
    match o {
        Some(t) => json!(["some", t.to_string()]),
        None => json!(["none"]),
    }
}

/// Every public field, read through the public API (not through the serializer)
pub fn fields(m: &cm::Metadata) -> Value {
    json!({
        "packages": m.packages.iter().map(pkg_fields).collect::<Vec<_>>(),
        "workspace_members": m.workspace_members.iter().map(|p| p.repr.clone()).collect::<Vec<_>>(),
        "workspace_default_members": match &m.workspace_default_members.0 {
            Some(v) => json!(["some", v.iter().map(|p| p.repr.clone()).collect::<Vec<_>>()]),
            None => json!(["none"]),
        },
        "resolve": match &m.resolve {
            None => json!(["none"]),
            Some(r) => json!(["some", {
                "root": opt(&r.root),
                "nodes": r.nodes.iter().map(|n| json!({
                    "id": n.id.repr, "features": n.features,
                    "dependencies": n.dependencies.iter().map(|p| p.repr.clone()).collect::<Vec<_>>(),
                    "deps": n.deps.iter().map(|d| json!({
                        "name": d.name, "pkg": d.pkg.repr,
                        "dep_kinds": d.dep_kinds.iter().map(|k| json!({
                            "kind": match k.kind {
                                cm::DependencyKind::Normal => "normal",
                                cm::DependencyKind::Build => "build",
                                cm::DependencyKind::Development => "dev",
                            }, "target": opt(&k.target)})).collect::<Vec<_>>(),
                    })).collect::<Vec<_>>(),
                })).collect::<Vec<_>>(),
            }]),
        },
        "workspace_root": m.workspace_root.as_str(),
        "target_directory": m.target_directory.as_str(),
        "metadata": m.workspace_metadata.to_string(),
        "version": m.version.to_string(),
        "indexed": m.packages.iter().map(|p| m.packages.iter().position(|q| std::ptr::eq(q, &m[&p.id])).map_or(0, |i| i + 1)).collect::<Vec<_>>(),
        "root_package": m.root_package().map(|p| p.id.repr.clone()).unwrap_or_default(),
        "default_packages": match &m.workspace_default_members.0 {
            Some(_) => m.workspace_default_packages().iter().map(|p| p.id.repr.clone()).collect(),
            None => Vec::new(),
        },
        "workspace_packages": m.workspace_packages().iter().map(|p| p.id.repr.clone()).collect::<Vec<_>>(),
    })
}

pub fn pkg_fields(p: &cm::Package) -> Value {
    let kind = |k: &cm::TargetKind| match k {
        cm::TargetKind::Example => "example",
        cm::TargetKind::Test => "test",
        cm::TargetKind::Bench => "bench",
        cm::TargetKind::CustomBuild => "custom-build",
        cm::TargetKind::Bin => "bin",
        cm::TargetKind::Lib => "lib",
        cm::TargetKind::RLib => "rlib",
        cm::TargetKind::DyLib => "dylib",
        cm::TargetKind::CDyLib => "cdylib",
        cm::TargetKind::StaticLib => "staticlib",
        cm::TargetKind::ProcMacro => "proc-macro",
    };
    let ctype = |k: &cm::CrateType| match k {
        cm::CrateType::Bin => "bin",
        cm::CrateType::Lib => "lib",
        cm::CrateType::RLib => "rlib",
        cm::CrateType::DyLib => "dylib",
        cm::CrateType::CDyLib => "cdylib",
        cm::CrateType::StaticLib => "staticlib",
        cm::CrateType::ProcMacro => "proc-macro",
    };
    let ed = |e: &cm::Edition| match e {
        cm::Edition::E2015 => "2015",
        cm::Edition::E2018 => "2018",
        cm::Edition::E2021 => "2021",
        cm::Edition::E2024 => "2024",
    };
    let dk = |k: &cm::DependencyKind| match k {
        cm::DependencyKind::Normal => "normal",
        cm::DependencyKind::Build => "build",
        cm::DependencyKind::Development => "dev",
    };
    json!({
        "name": p.name, "version": p.version.to_string(), "authors": p.authors, "id": p.id.repr,
        "source": opt(&p.source), "crates_io": p.source.as_ref().is_some_and(|s| s.is_crates_io()), "description": opt(&p.description),
        "dependencies": p.dependencies.iter().map(|d| json!({
            "name": d.name, "source": opt(&d.source), "req": d.req.to_string(), "kind": dk(&d.kind),
            "optional": d.optional, "uses_default_features": d.uses_default_features,
            "features": d.features, "target": opt(&d.target), "rename": opt(&d.rename),
            "registry": opt(&d.registry), "path": opt(&d.path),
        })).collect::<Vec<_>>(),
        "license": opt(&p.license), "license_file": opt(&p.license_file),
        "targets": p.targets.iter().map(|t| json!({
            "name": t.name, "kind": t.kind.iter().map(kind).collect::<Vec<_>>(),
            "crate_types": t.crate_types.iter().map(ctype).collect::<Vec<_>>(),
            "required_features": t.required_features, "src_path": t.src_path.as_str(),
            "edition": ed(&t.edition), "doctest": t.doctest, "test": t.test, "doc": t.doc,
            "is": [t.is_lib(), t.is_bin(), t.is_example(), t.is_test(), t.is_bench(), t.is_custom_build(), t.is_proc_macro()],
        })).collect::<Vec<_>>(),
        "features": p.features.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>(),
        "manifest_path": p.manifest_path.as_str(), "categories": p.categories, "keywords": p.keywords,
        "readme": opt(&p.readme), "repository": opt(&p.repository), "homepage": opt(&p.homepage),
        "documentation": opt(&p.documentation), "edition": ed(&p.edition),
        "metadata": p.metadata.to_string(), "links": opt(&p.links),
        "publish": match &p.publish { Some(v) => json!(["some", v]), None => json!(["none"]) },
        "default_run": opt(&p.default_run), "rust_version": opt(&p.rust_version),
        "abs_license": opt(&p.license_file()), "abs_readme": opt(&p.readme()),
    })
}

pub fn feature(cmd: &Value) -> Value {
    let f = s(&cmd["s"]);
    let pf = ParsedFeature::from(f);
    let (k, a, b) = match pf.feat() {
        Feature::Krate(k) => ("dep", k, ""),
        Feature::Weak { krate, feature } => ("weak", krate, feature),
        Feature::Strong { krate, feature } => ("strong", krate, feature),
        Feature::Simple(s) => ("simple", s, ""),
    };
    json!({"status": "ok", "k": k, "a": a, "b": b})
}

/// What is printed for a thing
pub fn text(cmd: &Value) -> Value {
    use krates::{DepKind, Edge, Error, Node, Target};
    use std::error::Error as _;
    struct T(String);
    impl std::fmt::Display for T {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::fmt::Debug for T {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "<{}>", self.0)
        }
    }
    let x = &cmd["x"];
    let v = x["v"].as_str().unwrap_or("");
    let kind = |k: &str| match k {
        "normal" => cm::DependencyKind::Normal,
        "build" => cm::DependencyKind::Build,
        "dev" => cm::DependencyKind::Development,
        k => panic!("harness: kind {k}"),
    };
    let mut o = match s(&x["sort"]) {
        "depkind" => {
            let k = DepKind::from(kind(v));
            if k != kind(v) {
                panic!("the kind {k:?} is not what it was made from");
            }
            json!({"display": k.to_string()})
        }
        "mdkind" => json!({"display": kind(v).to_string()}),
        "edge" => {
            let (kind, cfg) = (DepKind::from(kind(s(&x["kind"]))), Some(s(&x["cfg"]).to_owned()).filter(|c| !c.is_empty()));
            let e = match s(&x["variant"]) {
                "dep" => Edge::Dep { kind, cfg },
                "depfeature" => Edge::DepFeature { kind, cfg },
                _ => Edge::Feature,
            };
            json!({"display": e.to_string()})
        }
        "crate" => {
            let n = Node::Krate { id: kid_of(s(&x["repr"])), krate: T(v.to_owned()), features: Default::default(), dep_mapping: Vec::new() };
            json!({"display": n.to_string(), "debug": format!("{n:?}")})
        }
        "feature" => {
            let n = Node::<T>::Feature { krate_index: krates::NodeId::new(3), name: v.to_owned() };
            json!({"display": n.to_string(), "debug": format!("{n:?}")})
        }
        "target" => json!({"display": Target::from(v).to_string()}),
        "packageid" => json!({"display": cm::PackageId { repr: v.to_owned() }.to_string()}),
        "source" => json!({"display": cm::Source { repr: v.to_owned() }.to_string()}),
        "kid" => {
            let k = kid_of(s(&x["repr"]));
            json!({"display": k.to_string(), "debug": format!("{k:?}")})
        }
        "edition" => match v.parse::<cm::Edition>() {
            Ok(e) => json!({"read": true, "display": e.to_string(), "written": e.as_str()}),
            Err(_) => json!({"read": false}),
        },
        "targetkind" => match v.parse::<cm::TargetKind>() {
            Ok(e) => json!({"read": true, "written": serde_json::to_value(e).unwrap()}),
            Err(_) => json!({"read": false}),
        },
        "cratetype" => match v.parse::<cm::CrateType>() {
            Ok(e) => json!({"read": true, "written": serde_json::to_value(e).unwrap()}),
            Err(_) => json!({"read": false}),
        },
        "error" => {
            let about = s(&x["about"]);
            let mut bytes = about.as_bytes().to_vec();
            bytes.push(0xff);
            let md = |v: &str| {
                Some(match v {
                    "CargoMetadata" => (about.to_owned(), cm::Error::CargoMetadata { stderr: about.to_owned() }),
                    "Io" => (about.to_owned(), cm::Error::from(std::io::Error::other(about))),
                    "Utf8" => {
                        let e = std::str::from_utf8(&bytes).unwrap_err();
                        (e.to_string(), cm::Error::from(e))
                    }
                    "ErrUtf8" => {
                        let e = String::from_utf8(bytes.clone()).unwrap_err();
                        (e.to_string(), cm::Error::from(e))
                    }
                    "Json" => {
                        let e = serde_json::from_str::<u8>(about).unwrap_err();
                        (e.to_string(), cm::Error::from(e))
                    }
                    "NoJson" => (String::new(), cm::Error::NoJson),
                    _ => return None,
                })
            };
            match md(v) {
                Some((about, e)) => {
                    let (display, cause) = (e.to_string(), e.source().is_some());
                    let w = Error::from(e);
                    json!({"display": display, "about": about, "cause": cause,
                        "wrapped": {"display": w.to_string(), "cause": w.source().is_some_and(|c| c.to_string() == display)}})
                }
                None => {
                    let (about, e) = match v {
                        "NoResolveGraph" => ("", Error::NoResolveGraph),
                        "NoRootKrates" => ("", Error::NoRootKrates),
                        "InvalidPkgSpec" => (about, Error::InvalidPkgSpec(Box::leak(about.to_owned().into_boxed_str()))),
                        v => panic!("harness: error {v}"),
                    };
                    json!({"display": e.to_string(), "about": about, "cause": e.source().is_some(), "wrapped": {}})
                }
            }
        }
        x => panic!("harness: sort {x}"),
    };
    o["status"] = json!("ok");
    o
}
