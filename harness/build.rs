// Makes each area's crate root (OUT_DIR/<area>.rs) out of the repository's real lib.rs, so that the
// harness, included next to it, may call private items.  The text is unchanged but for crate attributes
// and test modules, which are dropped, and #[path] attributes, which are added.
use std::{env, fs, path::Path};

fn root(area: &str, src: &str) {
    let text = fs::read_to_string(format!("{}/lib.rs", src)).unwrap_or_default();
    let mut out = String::new();
    let mut skip = false;
    for l in text.lines() {
        let t = l.trim_start();
        if t.starts_with("#![") {
            continue;
        }
        if t == "#[cfg(test)]" {
            skip = true;
            continue;
        }
        let mut m = t;
        for p in &["pub(crate) ", "pub "] {
            if m.starts_with(p) {
                m = &m[p.len()..];
            }
        }
        if l == t && m.starts_with("mod ") && m.ends_with(";") {
            if skip {
                skip = false;
                continue;
            }
            let name = &m[4..m.len() - 1];
            let p1 = format!("{}/{}.rs", src, name);
            let p2 = format!("{}/{}/mod.rs", src, name);
            let p = if Path::new(&p1).exists() { p1 } else { p2 };
            out.push_str(&format!("#[path=\"{}\"]\n", p));
        }
        if skip {
            out.push_str("#[cfg(test)]\n");
            skip = false;
        }
        out.push_str(l);
        out.push('\n');
    }
    fs::write(format!("{}/{}.rs", env::var("OUT_DIR").unwrap(), area), out).unwrap();
    println!("cargo:rerun-if-changed={}/lib.rs", src);
}

// The peer manager once more, with two modules of the harness put inside it, which reach its private state.
fn peers(src: &str) {
    let dir = env::var("OUT_DIR").unwrap();
    let here = env::var("CARGO_MANIFEST_DIR").unwrap();
    let pm = format!("{}/peer_manager", src);
    let read = |p: String| {
        println!("cargo:rerun-if-changed={}", p);
        fs::read_to_string(p).unwrap_or_default()
    };

    let mut out = String::new();
    for l in read(format!("{}/mod.rs", pm)).lines() {
        let m = l.trim_start_matches("pub(crate) ").trim_start_matches("pub ");
        if m.starts_with("mod ") && m.ends_with(";") {
            let name = &m[4..m.len() - 1];
            let at = if name == "peer" { format!("{}/vx_peer.rs", dir) } else { format!("{}/{}.rs", pm, name) };
            out.push_str(&format!("#[path=\"{}\"]\n", at));
        }
        out.push_str(l);
        out.push('\n');
    }
    out.push_str(&format!("#[path=\"{}/src/peers_probe.rs\"]\npub mod vxprobe;\n", here));
    fs::write(format!("{}/vx_peer_manager.rs", dir), out).unwrap();

    let mut peer = read(format!("{}/peer.rs", pm));
    peer.push_str(&read(format!("{}/src/peer_time.rs", here)));
    fs::write(format!("{}/vx_peer.rs", dir), peer).unwrap();

    let net = fs::read_to_string(format!("{}/network.rs", dir)).unwrap();
    let net = net.replace(&format!("{}/mod.rs", pm), &format!("{}/vx_peer_manager.rs", dir));
    fs::write(format!("{}/peers.rs", dir), net).unwrap();
}

// The node's own program: crate attributes and the runtime's attribute are dropped, its main is renamed, and
// the recorders in place of the parts it starts are found in this crate.
fn node(src: &str) {
    let text = fs::read_to_string(format!("{}/main.rs", src)).unwrap_or_default();
    let mut out = String::new();
    for l in text.lines() {
        if l.starts_with("#![") || l.starts_with("#[runtime::main") {
            continue;
        }
        if l == "mod config;" {
            out.push_str(&format!("#[path=\"{}/vx_config.rs\"]\n", env::var("OUT_DIR").unwrap()));
        }
        out.push_str(&if l.starts_with("async fn main()") { l.replacen("main", "node_main", 1) } else { l.to_owned() });
        out.push('\n');
    }
    fs::write(format!("{}/node.rs", env::var("OUT_DIR").unwrap()), out).unwrap();
    let config = fs::read_to_string(format!("{}/config.rs", src)).unwrap_or_default();
    let config = config.replace("\nuse core_", "\nuse crate::core_");
    fs::write(format!("{}/vx_config.rs", env::var("OUT_DIR").unwrap()), config).unwrap();
    println!("cargo:rerun-if-changed={}/main.rs", src);
    println!("cargo:rerun-if-changed={}/config.rs", src);
}

// The network once more, over a network library whose service is a recorder (src/conn_tentacle.rs).
fn conn(src: &str) {
    let dir = env::var("OUT_DIR").unwrap();
    let to = format!("{}/conn_src", dir);
    copy(src, &to);
    let root = fs::read_to_string(format!("{}/network.rs", dir)).unwrap();
    fs::write(format!("{}/conn.rs", dir), root.replace(src, &to)).unwrap();
}

fn copy(from: &str, to: &str) {
    let _ = fs::create_dir_all(to);
    println!("cargo:rerun-if-changed={}", from);
    let mut names: Vec<_> = fs::read_dir(from).map(|d| d.filter_map(Result::ok).collect()).unwrap_or_default();
    names.sort_by_key(|e| e.file_name());
    for e in names {
        let (a, b) = (format!("{}/{}", from, e.file_name().to_string_lossy()), format!("{}/{}", to, e.file_name().to_string_lossy()));
        if e.path().is_dir() {
            copy(&a, &b);
            continue;
        }
        println!("cargo:rerun-if-changed={}", a);
        let mut text = fs::read_to_string(&a).unwrap_or_default();
        if a.ends_with(".rs") {
            text = text.replace("tentacle::", "crate::vxt::");
        }
        if a.ends_with("/protocols/ping.rs") {
            let there = text.contains("impl PingEventReporter") && text.contains("Sender<PingEvent> for PingEventReporter");
            text.push_str("\npub type VxSend = Box<dyn FnMut(tentacle_ping::Event) -> Result<(), generic_channel::TrySendError<tentacle_ping::Event>>>;\n");
            text.push_str("pub fn vx_try_send(tx: futures::channel::mpsc::UnboundedSender<crate::event::PeerManagerEvent>) -> Option<VxSend> {\n");
            text.push_str(if there {
                "    let mut r = PingEventReporter::new(tx);\n    Some(Box::new(move |e| generic_channel::Sender::try_send(&mut r, e)))\n}\n"
            } else {
                "    drop(tx);\n    None\n}\n"
            });
        }
        if a.ends_with("/src/service.rs") {
            let there = text.contains("struct NetworkService {") && text.contains("Option<PeerManager>,") && text.contains("peer_mgr:");
            text.push_str("\nimpl NetworkService {\n    pub fn vx_listen(&self) -> Option<Box<dyn Fn() -> Vec<tentacle::multiaddr::Multiaddr> + Send>> {\n");
            text.push_str(if there {
                "        self.peer_mgr.as_ref().map(|p| { let h = p.handle(); Box::new(move || h.listen_addrs()) as Box<dyn Fn() -> _ + Send> })\n    }\n}\n"
            } else {
                "        None\n    }\n}\n"
            });
        }
        if a.ends_with("/protocols/mod.rs") {
            text.push_str("\npub use self::ping::vx_try_send;\n");
        }
        if fs::read_to_string(&b).ok().as_ref() != Some(&text) {
            fs::write(&b, text).unwrap();
        }
    }
}

fn main() {
    let repo = "/repo";
    println!("cargo:rerun-if-changed=build.rs");
    for (area, dir) in &[
        ("executor", "core/executor/src"),
        ("storage", "core/storage/src"),
        ("network", "core/network/src"),
        ("mempool", "core/mempool/src"),
        ("consensus", "core/consensus/src"),
        ("merkle", "common/merkle/src"),
        ("api", "core/api/src"),
    ] {
        root(area, &format!("{}/{}", repo, dir));
    }
    peers(&format!("{}/core/network/src", repo));
    conn(&format!("{}/core/network/src", repo));
    node(&format!("{}/src", repo));
}
