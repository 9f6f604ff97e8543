use crate::{arr, s};
use krates::petgraph::visit::EdgeRef;
use krates::{Builder, DepKind, Edge, Kid, Krates, Node, NodeId, Scope, cm};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// User data stored on each node: enough to identify the package it came from.
#[derive(Debug, Clone)]
pub struct N {
    pub repr: String,
    pub name: String,
    pub version: krates::semver::Version,
    pub raw: String,
}

pub fn raw(p: &cm::Package) -> String {
    serde_json::to_string(p).expect("serialize package")
}

impl From<cm::Package> for N {
    fn from(p: cm::Package) -> Self {
        let raw = raw(&p);
        Self { repr: p.id.repr, name: p.name, version: p.version, raw }
    }
}

impl krates::KrateDetails for N {
    fn name(&self) -> &str {
        &self.name
    }
    fn version(&self) -> &krates::semver::Version {
        &self.version
    }
}

type G = Krates<N, Edge>;

fn kind_from(k: &str) -> DepKind {
    match k {
        "normal" => DepKind::Normal,
        "build" => DepKind::Build,
        "dev" => DepKind::Dev,
        k => panic!("harness: kind {k}"),
    }
}

fn kind_str(k: DepKind) -> &'static str {
    match k {
        DepKind::Normal => "normal",
        DepKind::Build => "build",
        DepKind::Dev => "dev",
    }
}

pub fn builder(ops: &Value, index_req: &std::rc::Rc<std::cell::RefCell<Vec<String>>>) -> Builder {
    let mut b = Builder::new();
    for op in arr(ops) {
        match s(&op["op"]) {
            "ignore" => {
                let scope = match s(&op["scope"]) {
                    "ws" => Scope::Workspace,
                    "nonws" => Scope::NonWorkspace,
                    "all" => Scope::All,
                    x => panic!("harness: scope {x}"),
                };
                b.ignore_kind(kind_from(s(&op["kind"])), scope);
            }
            "workspace" => {
                b.workspace(op["v"].as_bool().unwrap());
            }
            "exclude" => {
                b.exclude(arr(&op["specs"]).iter().map(|sp| {
                    s(sp).parse::<krates::PkgSpec>()
                        .unwrap_or_else(|e| panic!("spec {sp} did not parse: {e}"))
                }));
            }
            "include" => {
                b.include_workspace_crates(arr(&op["paths"]).iter().map(s));
            }
            "targets" => {
                b.include_targets(arr(&op["t"]).iter().map(|t| {
                    (s(&t[0]), arr(&t[1]).iter().map(|f| s(f).to_owned()).collect())
                }));
            }
            "index" => {
                let data = op["data"].clone();
                let req = index_req.clone();
                b.with_crates_io_index(Box::new(move |names: BTreeSet<String>| {
                    req.borrow_mut().extend(names.iter().cloned());
                    let mut out = BTreeMap::new();
                    for (name, vers) in data.as_object().unwrap() {
                        out.insert(
                            name.clone(),
                            if vers.is_null() {
                                None
                            } else {
                                Some(krates::index::IndexKrate {
                                    versions: arr(vers)
                                        .iter()
                                        .map(|v| krates::index::IndexKrateVersion {
                                            version: s(&v["version"]).parse().unwrap(),
                                            features: v["features"]
                                                .as_object()
                                                .unwrap()
                                                .iter()
                                                .map(|(k, v)| {
                                                    (
                                                        k.clone(),
                                                        arr(v).iter().map(|f| s(f).to_owned()).collect(),
                                                    )
                                                })
                                                .collect(),
                                        })
                                        .collect(),
                                })
                            },
                        );
                    }
                    out
                }));
            }
            x => panic!("harness: op {x}"),
        }
    }
    b
}

pub fn metadata(v: &Value) -> Result<cm::Metadata, String> {
    // via text, so that the deserializer of the code under test sees what cargo would print
    cm::MetadataCommand::parse(&v.to_string()).map_err(|e| e.to_string())
}

fn err_name(e: &krates::Error) -> String {
    match e {
        krates::Error::NoResolveGraph => "NoResolveGraph".into(),
        krates::Error::NoRootKrates => "NoRootKrates".into(),
        krates::Error::Metadata(e) => format!("Metadata: {e}"),
        krates::Error::InvalidPkgSpec(e) => format!("InvalidPkgSpec: {e}"),
    }
}

pub fn run(cmd: &Value) -> Value {
    let ids: Vec<&str> = arr(&cmd["ids"]).iter().map(s).collect();
    let label: HashMap<&str, usize> = ids.iter().enumerate().map(|(i, r)| (*r, i + 1)).collect();
    let lab = |r: &str| -> usize { label.get(r).copied().unwrap_or(0) };
    let req = std::rc::Rc::new(std::cell::RefCell::new(Vec::new()));
    let filtered = std::rc::Rc::new(std::cell::RefCell::new(Vec::new()));
    let b = builder(&cmd["ops"], &req);
    let f2 = filtered.clone();
    let altered = std::rc::Rc::new(std::cell::RefCell::new(Vec::new()));
    let a2 = altered.clone();
    let given: std::rc::Rc<std::cell::RefCell<HashMap<String, String>>> = Default::default();
    let g2 = given.clone();
    let on_filter = move |p: cm::Package| {
        if g2.borrow().get(&p.id.repr).is_some_and(|g| *g != raw(&p)) {
            a2.borrow_mut().push(p.id.repr.clone());
        }
        f2.borrow_mut().push(p.id.repr);
    };

    let res: Result<G, String> = if cmd["exec"].is_object() {
        let c = crate::misc::make_cmd(&cmd["exec"]);
        b.build(c, on_filter).map_err(|e| err_name(&e))
    } else {
        let md = match metadata(&cmd["md"]) {
            Ok(m) => m,
            Err(e) => return json!({"status": "mderr", "msg": e}),
        };
        if !arr(&cmd["ops"]).iter().any(|o| o["op"] == "index") {
            given.borrow_mut().extend(md.packages.iter().map(|p| (p.id.repr.clone(), raw(p))));
        }
        b.build_with_metadata(md, on_filter).map_err(|e| err_name(&e))
    };

    let filtered: Vec<usize> = filtered.borrow().iter().map(|r| lab(r)).collect();
    let g = match res {
        Ok(g) => g,
        Err(e) => {
            return json!({"status": "err", "msg": e, "filtered": filtered, "indexreq": *req.borrow()});
        }
    };

    for k in g.krates() {
        if given.borrow().get(&k.repr).is_some_and(|g| *g != k.raw) {
            altered.borrow_mut().push(k.repr.clone());
        }
    }
    let mut out = observe(&g, &ids, &lab, cmd);
    if cmd["types"].as_bool().unwrap_or(false) {
        out["alt"] = own_types(cmd, &lab);
        out["weights"] = json!(g.graph().raw_edges().iter().map(|e| format!("{:?}", e.weight)).collect::<Vec<_>>());
    }
    if cmd["plain"].as_bool().unwrap_or(false) {
        out["plain"] = plain(cmd, &lab);
    }
    out["altered"] = json!(*altered.borrow());
    out["filtered"] = json!(filtered);
    out["indexreq"] = json!(*req.borrow());
    out
}

thread_local! {
    static CONVERTED: std::cell::RefCell<(Vec<String>, usize)> = const { std::cell::RefCell::new((Vec::new(), 0)) };
}

/// The same run with a node and an edge type of the caller's that count how often something is converted into them
fn own_types(cmd: &Value, lab: &dyn Fn(&str) -> usize) -> Value {
    struct Own {
        repr: String,
    }
    impl From<cm::Package> for Own {
        fn from(p: cm::Package) -> Self {
            CONVERTED.with(|c| c.borrow_mut().0.push(p.id.repr.clone()));
            Self { repr: p.id.repr }
        }
    }
    struct Link {
        text: String,
    }
    impl From<Edge> for Link {
        fn from(e: Edge) -> Self {
            CONVERTED.with(|c| c.borrow_mut().1 += 1);
            Self { text: format!("{e:?}") }
        }
    }
    struct Sink(std::rc::Rc<std::cell::RefCell<Vec<String>>>);
    impl krates::OnFilter for Sink {
        fn filtered(&mut self, p: cm::Package) {
            self.0.borrow_mut().push(p.id.repr);
        }
    }
    CONVERTED.with(|c| *c.borrow_mut() = Default::default());
    let dropped: std::rc::Rc<std::cell::RefCell<Vec<String>>> = Default::default();
    let b = builder(&cmd["ops"], &Default::default());
    let md = metadata(&cmd["md"]).expect("harness: metadata");
    let g: Krates<Own, Link> = match b.build_with_metadata(md, Sink(dropped.clone())) {
        Ok(g) => g,
        Err(e) => return json!({"ok": false, "msg": err_name(&e)}),
    };
    let graph = g.graph();
    let krates: Vec<usize> = g.krates().map(|k| lab(&k.repr)).collect();
    let n = krates.len();
    let nid = |i: usize| NodeId::new(i);
    let (made, links) = CONVERTED.with(|c| c.borrow().clone());
    json!({"ok": true, "msg": "", "krates": krates, "len": g.len(),
        "feats": (0..n).map(|i| match &graph[nid(i)] { Node::Krate { features, .. } => json!(features), _ => json!(["?"]) }).collect::<Vec<_>>(),
        "fnodes": graph.node_indices().skip(n).map(|i| match &graph[i] {
            Node::Feature { krate_index, name } => json!({"q": lab(&graph_repr(&graph[*krate_index], |o: &Own| &o.repr)), "g": name}),
            _ => json!({"q": 0, "g": "?"})}).collect::<Vec<_>>(),
        "map": (0..n).map(|i| match &graph[nid(i)] {
            Node::Krate { dep_mapping, .. } => (0..dep_mapping.len()).map(|d| g.resolved_dependency(nid(i), d).map_or(0, |k| lab(&k.repr))).collect(),
            _ => Vec::new()}).collect::<Vec<_>>(),
        "dd": (0..n).map(|i| g.direct_dependencies(nid(i)).iter().map(|d| lab(&d.krate.repr)).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "dt": (0..n).map(|i| g.direct_dependents(nid(i)).iter().map(|d| lab(&d.krate.repr)).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "adj": graph.raw_edges().iter().map(|e| [e.source().index() + 1, e.target().index() + 1]).collect::<Vec<_>>(),
        "weights": graph.raw_edges().iter().map(|e| e.weight.text.clone()).collect::<Vec<_>>(),
        "made": made.iter().map(|r| lab(r)).collect::<Vec<_>>(), "links": links,
        "filtered": dropped.borrow().iter().map(|r| lab(r)).collect::<Vec<_>>()})
}

/// The same run with the types krates itself provides, reporting to nobody
fn plain(cmd: &Value, lab: &dyn Fn(&str) -> usize) -> Value {
    let b = builder(&cmd["ops"], &Default::default());
    let md = metadata(&cmd["md"]).expect("harness: metadata");
    let index = arr(&cmd["ops"]).iter().any(|o| o["op"] == "index");
    let given: HashMap<String, String> = if index { HashMap::new() } else { md.packages.iter().map(|p| (p.id.repr.clone(), raw(p))).collect() };
    let g: Krates = match b.build_with_metadata(md, krates::NoneFilter) {
        Ok(g) => g,
        Err(e) => return json!({"ok": false, "msg": err_name(&e)}),
    };
    let graph = g.graph();
    let l = |p: &cm::Package| lab(&p.id.repr);
    let of = |n: &Node<cm::Package>| match n {
        Node::Krate { krate, .. } => l(krate),
        Node::Feature { .. } => 0,
    };
    let n = g.len();
    let kf: Vec<Vec<usize>> =
        [DepKind::Normal, DepKind::Build, DepKind::Dev].into_iter().map(|k| g.krates_filtered(k).into_iter().map(l).collect()).collect();
    json!({"ok": true, "msg": "", "len": n,
        "krates": g.krates().map(l).collect::<Vec<_>>(),
        "index": (0..n).map(|i| l(&g[i])).collect::<Vec<_>>(), "nindex": (0..n).map(|i| l(&g[NodeId::new(i)])).collect::<Vec<_>>(),
        "altered": g.krates().filter(|p| given.get(&p.id.repr).is_some_and(|x| *x != raw(p))).map(l).collect::<Vec<_>>(),
        "adj": graph.raw_edges().iter().map(|e| [e.source().index() + 1, e.target().index() + 1]).collect::<Vec<_>>(),
        "wm": g.workspace_members().map(of).collect::<Vec<_>>(),
        "byname": arr(&cmd["names"]).iter().map(|x| g.krates_by_name(s(x)).map(|m| l(m.krate)).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "search": arr(&cmd["reqs"]).iter().map(|q| g.search_matches(s(&q["name"]), s(&q["req"]).parse().unwrap()).map(|m| l(m.krate)).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "kf": kf,
        "dd": (0..n).map(|i| g.direct_dependencies(NodeId::new(i)).iter().map(|d| l(d.krate)).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "dt": (0..n).map(|i| g.direct_dependents(NodeId::new(i)).iter().map(|d| l(d.krate)).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "map": (0..n).map(|i| match &graph[NodeId::new(i)] {
            Node::Krate { dep_mapping, .. } => (0..dep_mapping.len()).map(|d| g.resolved_dependency(NodeId::new(i), d).map_or(0, l)).collect(),
            _ => Vec::new()}).collect::<Vec<_>>()})
}

fn graph_repr<T>(n: &Node<T>, f: impl Fn(&T) -> &String) -> String {
    match n {
        Node::Krate { krate, .. } => f(krate).clone(),
        Node::Feature { .. } => String::new(),
    }
}

/// What features the packages of a document have once an index was consulted
pub fn index(cmd: &Value) -> Value {
    let req = std::rc::Rc::new(std::cell::RefCell::new(Vec::new()));
    let b = builder(&json!([{"op": "index", "data": cmd["data"]}]), &req);
    let md = match metadata(&cmd["md"]) {
        Ok(m) => m,
        Err(e) => return json!({"status": "mderr", "msg": e}),
    };
    let ids: Vec<String> = md.packages.iter().map(|p| p.id.repr.clone()).collect();
    let seen = std::rc::Rc::new(std::cell::RefCell::new(Vec::<(String, Value)>::new()));
    let s2 = seen.clone();
    struct P(cm::Package);
    impl From<cm::Package> for P {
        fn from(p: cm::Package) -> Self {
            Self(p)
        }
    }
    let feats = |p: &cm::Package| -> Value {
        p.features.iter().map(|(k, v)| json!({"f": k, "items": v})).collect()
    };
    let res: Result<Krates<P, Edge>, _> =
        b.build_with_metadata(md, move |p: cm::Package| s2.borrow_mut().push((p.id.repr.clone(), feats(&p))));
    let g = match res {
        Ok(g) => g,
        Err(e) => return json!({"status": "err", "msg": err_name(&e)}),
    };
    for k in g.krates() {
        seen.borrow_mut().push((k.0.id.repr.clone(), feats(&k.0)));
    }
    let seen = seen.borrow();
    let got: Vec<Value> = ids
        .iter()
        .map(|i| seen.iter().find(|(r, _)| r == i).map_or(json!([]), |(_, f)| f.clone()))
        .collect();
    let times: Vec<usize> = ids.iter().map(|i| seen.iter().filter(|(r, _)| r == i).count()).collect();
    json!({"status": "ok", "msg": "", "feats": got, "times": times, "req": *req.borrow()})
}

fn observe(g: &G, ids: &[&str], lab: &dyn Fn(&str) -> usize, cmd: &Value) -> Value {
    let graph = g.graph();
    let klab = |nid: NodeId| -> usize {
        match &graph[nid] {
            Node::Krate { krate, .. } => lab(&krate.repr),
            Node::Feature { .. } => 0,
        }
    };

    let mut krates = Vec::new();
    let mut feats = Vec::new();
    let mut fnodes = Vec::new();
    let mut dep = Vec::new();
    let mut pf = Vec::new();
    let mut ff = Vec::new();
    let mut odd: Vec<String> = Vec::new();
    let mut map = Vec::new();
    let mut dd = Vec::new();
    let mut dt = Vec::new();
    let mut gd = Vec::new();
    let mut seen_feature = false;

    for nid in graph.node_indices() {
        match &graph[nid] {
            Node::Krate { id, krate, features, dep_mapping } => {
                if seen_feature {
                    odd.push(format!("crate node {} after a feature node", krate.repr));
                }
                let want = Kid::from(cm::PackageId { repr: krate.repr.clone() });
                if want != *id {
                    odd.push(format!("node id {} for package {}", id.repr, krate.repr));
                }
                let l = lab(&krate.repr);
                if l == 0 {
                    odd.push(format!("unknown crate {}", krate.repr));
                }
                krates.push(l);
                feats.push(json!(features));
                let mut m: Vec<usize> = Vec::new();
                for i in 0..dep_mapping.len() {
                    let via = g.resolved_dependency(nid, i).map_or(0, |n| lab(&n.repr));
                    let direct = dep_mapping[i].map_or(0, klab);
                    if via != direct {
                        odd.push(format!("resolved_dependency {l} {i}: {via} != {direct}"));
                    }
                    m.push(via);
                }
                if g.resolved_dependency(nid, dep_mapping.len()).is_some() {
                    odd.push(format!("resolved_dependency past the end on {l}"));
                }
                map.push(m);

                dd.push(json!(
                    g.direct_dependencies(nid)
                        .iter()
                        .map(|d| {
                            if klab(d.node_id) != lab(&d.krate.repr) {
                                odd.push(format!("direct_dependencies({l}): node_id does not match krate"));
                            }
                            match graph.edge_endpoints(d.edge_id) {
                                Some((_, t)) if t == d.node_id => {}
                                x => odd.push(format!("direct_dependencies({l}): edge {x:?}")),
                            }
                            lab(&d.krate.repr)
                        })
                        .collect::<Vec<_>>()
                ));
                dt.push(json!(
                    g.direct_dependents(nid)
                        .iter()
                        .map(|d| {
                            if klab(d.node_id) != lab(&d.krate.repr) {
                                odd.push(format!("direct_dependents({l}): node_id does not match krate"));
                            }
                            match graph.edge_endpoints(d.edge_id) {
                                Some((sn, t)) if sn == d.node_id => {
                                    // the edge has to lead to this crate or one of its features
                                    let ok = match &graph[t] {
                                        Node::Krate { .. } => t == nid,
                                        Node::Feature { krate_index, .. } => *krate_index == nid,
                                    };
                                    if !ok {
                                        odd.push(format!("direct_dependents({l}): edge leads elsewhere"));
                                    }
                                }
                                x => odd.push(format!("direct_dependents({l}): edge {x:?}")),
                            }
                            lab(&d.krate.repr)
                        })
                        .collect::<Vec<_>>()
                ));

                for e in graph.edges(nid) {
                    let (q, h) = match &graph[e.target()] {
                        Node::Krate { krate, .. } => (lab(&krate.repr), String::new()),
                        Node::Feature { krate_index, name } => (klab(*krate_index), name.clone()),
                    };
                    match e.weight() {
                        Edge::Dep { kind, cfg } | Edge::DepFeature { kind, cfg } => {
                            let isdep = matches!(e.weight(), Edge::Dep { .. });
                            if isdep != h.is_empty() {
                                odd.push(format!("edge {:?} {l}->{q}/{h}", e.weight()));
                            }
                            dep.push(json!({"p": l, "q": q, "g": h, "kind": kind_str(*kind),
                                "cfg": cfg.clone().unwrap_or_default()}));
                        }
                        Edge::Feature => pf.push(json!({"p": l, "q": q, "g": h})),
                    }
                }

                // get_deps has to be exactly the outgoing edges
                let mut a: Vec<String> = g
                    .get_deps(nid)
                    .map(|(n, e)| {
                        let (q, h) = match n {
                            Node::Krate { krate, .. } => (lab(&krate.repr), String::new()),
                            Node::Feature { krate_index, name } => (klab(*krate_index), name.clone()),
                        };
                        format!("{q}/{h} {e:?}")
                    })
                    .collect();
                let mut b: Vec<String> = graph
                    .edges(nid)
                    .map(|e| {
                        let (q, h) = match &graph[e.target()] {
                            Node::Krate { krate, .. } => (lab(&krate.repr), String::new()),
                            Node::Feature { krate_index, name } => (klab(*krate_index), name.clone()),
                        };
                        format!("{q}/{h} {:?}", e.weight())
                    })
                    .collect();
                a.sort();
                b.sort();
                if a != b {
                    odd.push(format!("get_deps({l}) differs from the outgoing edges"));
                }
                gd.push(a.len());

                if g[nid].repr != krate.repr || g[nid.index()].repr != krate.repr {
                    odd.push(format!("indexing by node id gives another crate for {l}"));
                }
            }
            Node::Feature { krate_index, name } => {
                seen_feature = true;
                let q = klab(*krate_index);
                // attached: linked to the crate it is a feature of
                let own = graph.edges(nid).any(|e| e.target() == *krate_index);
                fnodes.push(json!({"q": q, "g": name, "own": own}));
                if g.resolved_dependency(nid, 0).is_some() {
                    odd.push(format!("resolved_dependency of feature node {q}/{name}"));
                }
                for e in graph.edges(nid) {
                    let (r, h) = match &graph[e.target()] {
                        Node::Krate { krate, .. } => (lab(&krate.repr), String::new()),
                        Node::Feature { krate_index, name } => (klab(*krate_index), name.clone()),
                    };
                    match e.weight() {
                        Edge::Feature => {}
                        w => odd.push(format!("edge {w:?} out of feature {q}/{name}")),
                    }
                    ff.push(json!({"q": q, "g": name, "r": r, "h": h}));
                }
            }
        }
    }

    let order: Vec<usize> = g.krates().map(|n| lab(&n.repr)).collect();

    // lookups
    let mut lookup = Vec::new();
    for (i, id) in ids.iter().enumerate() {
        let kid = Kid::from(cm::PackageId { repr: (*id).to_owned() });
        let nid = g.nid_for_kid(&kid);
        let l = nid.map_or(0, klab);
        let via_node = match g.node_for_kid(&kid) {
            Some(Node::Krate { krate, .. }) => lab(&krate.repr),
            Some(_) => {
                odd.push("node_for_kid gave a feature".into());
                0
            }
            None => 0,
        };
        let via_get = match g.get_node(&kid, None) {
            Some((n, Node::Krate { krate, .. })) => {
                if Some(n) != nid {
                    odd.push(format!("get_node({i}) gives another node id"));
                }
                lab(&krate.repr)
            }
            Some(_) => {
                odd.push("get_node(_, None) gave a feature".into());
                0
            }
            None => 0,
        };
        let ef = g.get_enabled_features(&kid);
        lookup.push(json!({"nid": l, "node": via_node, "get": via_get,
            "has": ef.is_some(), "feats": ef.cloned().unwrap_or_default()}));
    }

    let mut getf = Vec::new();
    for pair in arr(&cmd["getf"]) {
        let i = pair["p"].as_u64().unwrap() as usize;
        let f = s(&pair["f"]);
        let kid = Kid::from(cm::PackageId { repr: ids[i - 1].to_owned() });
        let r = match g.get_node(&kid, Some(f)) {
            Some((n, Node::Feature { krate_index, name })) => {
                if !matches!(&graph[n], Node::Feature { name: n2, .. } if n2 == name) {
                    odd.push(format!("get_node({i}, {f}) node id mismatch"));
                }
                json!({"p": i, "f": f, "q": klab(*krate_index), "g": name})
            }
            Some((_, Node::Krate { krate, .. })) => json!({"p": i, "f": f, "q": lab(&krate.repr), "g": ""}),
            None => json!({"p": i, "f": f, "q": 0, "g": ""}),
        };
        getf.push(r);
    }

    let wm: Vec<usize> = g
        .workspace_members()
        .map(|n| match n {
            Node::Krate { krate, .. } => lab(&krate.repr),
            Node::Feature { .. } => 0,
        })
        .collect();

    let mut byname = Vec::new();
    for n in arr(&cmd["names"]) {
        let n = s(n);
        let v: Vec<usize> = g
            .krates_by_name(n)
            .map(|m| {
                if klab(m.node_id) != lab(&m.krate.repr)
                    || *m.kid != Kid::from(cm::PackageId { repr: m.krate.repr.clone() })
                {
                    odd.push(format!("krates_by_name({n}) match is inconsistent"));
                }
                lab(&m.krate.repr)
            })
            .collect();
        byname.push(json!({"name": n, "got": v}));
    }
    let mut search = Vec::new();
    for q in arr(&cmd["reqs"]) {
        let (n, r) = (s(&q["name"]), s(&q["req"]));
        let v: Vec<usize> = g
            .search_matches(n, r.parse().unwrap_or_else(|_| panic!("harness: req {r}")))
            .map(|m| {
                if klab(m.node_id) != lab(&m.krate.repr)
                    || *m.kid != Kid::from(cm::PackageId { repr: m.krate.repr.clone() })
                {
                    odd.push(format!("search_matches({n}) match is inconsistent"));
                }
                lab(&m.krate.repr)
            })
            .collect();
        search.push(json!({"name": n, "req": r, "sat": q["sat"], "got": v}));
    }

    let kf: Vec<Vec<usize>> = [DepKind::Normal, DepKind::Build, DepKind::Dev]
        .into_iter()
        .map(|k| g.krates_filtered(k).into_iter().map(|n| lab(&n.repr)).collect())
        .collect();

    json!({
        "status": "ok", "msg": "",
        "len": g.len(), "krates": krates, "order": order, "feats": feats, "fnodes": fnodes,
        "dep": dep, "pf": pf, "ff": ff, "adj": graph.raw_edges().iter().map(|e| [e.source().index() + 1, e.target().index() + 1]).collect::<Vec<_>>(), "map": map, "dd": dd, "dt": dt, "gd": gd,
        "lookup": lookup, "getf": getf, "wm": wm, "byname": byname, "search": search,
        "kf": {"normal": kf[0], "build": kf[1], "dev": kf[2]},
        "wsroot": g.workspace_root().as_str(), "odd": odd,
    })
}
