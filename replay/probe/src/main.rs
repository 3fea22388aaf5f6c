//! Drives the public interface of artefacta: one JSON request per line on stdin, one JSON answer per line on stdout.
//! `ref_*` requests do not use artefacta: they are the independent implementations that results are compared with.
use artefacta::{ArtefactIndex, Storage, Version};
use serde_json::{json, Value};
use std::{
    collections::HashMap,
    fs,
    io::{BufRead, Cursor, Read, Write},
    panic::{catch_unwind, AssertUnwindSafe},
    path::Path,
};

type R = Result<Value, String>;

fn e<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| format!("{:?}", e).lines().take(12).collect::<Vec<_>>().join(" | "))
}
fn s<'a>(q: &'a Value, k: &str) -> Result<&'a str, String> {
    q[k].as_str().ok_or_else(|| format!("request without {}", k))
}
fn ver(q: &Value, k: &str) -> Result<Version, String> {
    e(s(q, k)?.parse::<Version>())
}
fn entry(p: &str, size: u64) -> Value {
    json!({ "path": p, "size": size })
}

struct St {
    rt: tokio::runtime::Runtime,
    ix: HashMap<u64, ArtefactIndex>,
    next: u64,
}

fn storage(p: &str) -> Result<Storage, String> {
    e(p.parse::<Storage>())
}

fn run(st: &mut St, q: &Value) -> R {
    let op = s(q, "op")?;
    match op {
        "version" => {
            let v = ver(q, "s")?;
            return Ok(json!({ "disp": v.to_string(), "as_str": v.as_str() }));
        }
        "file_name" => return Ok(json!(e(artefacta::paths::file_name(s(q, "p")?))?)),
        "build_version" => {
            return Ok(json!(e(artefacta::paths::build_version_from_path(s(q, "p")?))?.as_str()))
        }
        "build_path" => {
            return Ok(json!(e(artefacta::paths::build_path_from_version(ver(q, "v")?))?))
        }
        "tags" => {
            let tags: Vec<String> = q["tags"]
                .as_array()
                .ok_or("tags")?
                .iter()
                .map(|t| t.as_str().unwrap_or("").to_string())
                .collect();
            return Ok(json!(e(artefacta::git::find_tags_to_patch(s(q, "current")?, &tags))?));
        }
        "compress" => {
            let data = e(fs::read(s(q, "in")?))?;
            let mut z = e(artefacta::compress(Vec::new()))?;
            let n = q["chunk"].as_u64().unwrap_or(1 << 20).max(1) as usize;
            for c in data.chunks(n) {
                e(z.write_all(c))?;
            }
            e(fs::write(s(q, "out")?, e(z.finish())?))?;
            return Ok(json!(null));
        }
        "decompress" => {
            let data = e(artefacta::decompress(Cursor::new(e(fs::read(s(q, "in")?))?)))?;
            e(fs::write(s(q, "out")?, data))?;
            return Ok(json!(null));
        }
        "package" => {
            let mut out = Vec::new();
            e(artefacta::package(Path::new(s(q, "src")?), &mut out))?;
            e(fs::write(s(q, "out")?, out))?;
            return Ok(json!(null));
        }
        "apply" => {
            let mut r = e(artefacta::apply_patch(s(q, "archive")?, s(q, "patch")?))?;
            let mut out = Vec::new();
            e(r.read_to_end(&mut out))?;
            e(fs::write(s(q, "out")?, out))?;
            return Ok(json!(null));
        }
        "partial" => {
            // writes the given number of bytes to a PartialFile, finishes it or drops it
            let target = s(q, "target")?;
            let mut f = e(artefacta::PartialFile::create(target))?;
            let data = e(fs::read(s(q, "in")?))?;
            let n = q["chunk"].as_u64().unwrap_or(1 << 20).max(1) as usize;
            for c in data.chunks(n) {
                e(f.write_all(c))?;
            }
            if q["finish"].as_bool().unwrap_or(true) {
                e(f.finish())?;
            } else {
                drop(f);
            }
            return Ok(json!(null));
        }
        // ---- independent
        "ref_zenc" => {
            let data = e(fs::read(s(q, "in")?))?;
            let mut out = e(zstd::stream::encode_all(&data[..], q["level"].as_i64().unwrap_or(3) as i32))?;
            let pad = q["pad"].as_u64().unwrap_or(0) as u32;
            if pad >= 8 {
                out.extend_from_slice(&0x184D2A50u32.to_le_bytes());
                out.extend_from_slice(&(pad - 8).to_le_bytes());
                out.resize(out.len() + pad as usize - 8, 0);
            }
            e(fs::write(s(q, "out")?, &out))?;
            return Ok(json!(out.len()));
        }
        "ref_zdec" => {
            let data = e(zstd::stream::decode_all(&e(fs::read(s(q, "in")?))?[..]))?;
            e(fs::write(s(q, "out")?, data))?;
            return Ok(json!(null));
        }
        "ref_bdiff" => {
            let (a, b) = (e(fs::read(s(q, "old")?))?, e(fs::read(s(q, "new")?))?);
            let mut out = Vec::new();
            e(bidiff::simple_diff(&a, &b, &mut out))?;
            e(fs::write(s(q, "out")?, out))?;
            return Ok(json!(null));
        }
        "ref_bpatch" => {
            let (p, a) = (e(fs::read(s(q, "patch")?))?, e(fs::read(s(q, "old")?))?);
            let mut out = Vec::new();
            e(e(bipatch::Reader::new(Cursor::new(p), Cursor::new(a)))?.read_to_end(&mut out))?;
            e(fs::write(s(q, "out")?, out))?;
            return Ok(json!(null));
        }
        "open" => {
            let remote = storage(s(q, "remote")?)?;
            let i = e(st.rt.block_on(ArtefactIndex::new(s(q, "local")?, remote)))?;
            st.next += 1;
            st.ix.insert(st.next, i);
            return Ok(json!(st.next));
        }
        _ => {}
    }
    let h = q["h"].as_u64().ok_or("no handle")?;
    if op == "close" {
        st.ix.remove(&h);
        return Ok(json!(null));
    }
    let ix = st.ix.get_mut(&h).ok_or("bad handle")?;
    let rt = &st.rt;
    let add = |q: &Value| -> Result<artefacta::cli::AddBuild, String> {
        Ok(artefacta::cli::AddBuild {
            path: s(q, "path")?.into(),
            upload: q["upload"].as_bool().unwrap_or(false),
            calculate_patch_from: match q["from"].as_str() {
                Some(f) => Some(e(f.parse::<Version>())?),
                None => None,
            },
        })
    };
    match op {
        "clone" => {
            let c = ix.clone();
            st.next += 1;
            st.ix.insert(st.next, c);
            Ok(json!(st.next))
        }
        "get_build" => e(rt.block_on(ix.get_build(ver(q, "v")?))).map(|x| entry(&x.path, x.size)),
        "get_patch" => {
            e(rt.block_on(ix.get_patch(ver(q, "a")?, ver(q, "b")?))).map(|x| entry(&x.path, x.size))
        }
        "upgrade" => e(rt.block_on(ix.upgrade_to_build(ver(q, "a")?, ver(q, "b")?)))
            .map(|x| entry(&x.path, x.size)),
        "calc" => e(rt.block_on(ix.calculate_patch(ver(q, "a")?, ver(q, "b")?))).map(|_| json!(null)),
        "add_local" => e(rt.block_on(ix.add_local_build(s(q, "p")?))).map(|x| entry(&x.path, x.size)),
        "push" => e(rt.block_on(ix.push())).map(|_| json!(null)),
        "tagbuild" => e(ix.get_build_for_tag(s(q, "t")?)).map(|v| json!(v.as_str())),
        "sync" => e(rt.block_on(artefacta::sync(ix))).map(|_| json!(null)),
        "install" => e(rt.block_on(artefacta::install(ix, ver(q, "v")?, Path::new(s(q, "current")?))))
            .map(|_| json!(null)),
        "add" => e(rt.block_on(artefacta::add(ix, add(q)?))).map(|_| json!(null)),
        "add_package" => {
            e(rt.block_on(artefacta::add_package(ix, ver(q, "v")?, add(q)?))).map(|_| json!(null))
        }
        "create_patch" => e(rt.block_on(artefacta::create_patch(ix, ver(q, "a")?, ver(q, "b")?)))
            .map(|_| json!(null)),
        _ => Err(format!("unknown op {}", op)),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut st = St {
        rt: tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap(),
        ix: HashMap::new(),
        next: 0,
    };
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => break,
        };
        let q: Value = match serde_json::from_str(&line) {
            Ok(q) => q,
            Err(x) => {
                let _ = writeln!(out.lock(), "{}", json!({ "bad": x.to_string() }));
                continue;
            }
        };
        let mut set = Vec::new();
        if let Some(m) = q["env"].as_object() {
            for (k, v) in m {
                if let Some(v) = v.as_str() {
                    set.push(k.clone());
                    std::env::set_var(k, v);
                }
            }
        }
        let a = match catch_unwind(AssertUnwindSafe(|| run(&mut st, &q))) {
            Ok(Ok(v)) => json!({ "ok": v }),
            Ok(Err(x)) => json!({ "err": x }),
            Err(p) => json!({ "panic": p.downcast_ref::<String>().cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default() }),
        };
        for k in set {
            std::env::remove_var(k);
        }
        let _ = writeln!(out.lock(), "{}", a);
        let _ = out.lock().flush();
    }
}
