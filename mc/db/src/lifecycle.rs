//! D20: opening, closing, checkpointing and wiping a database. Checkpoints are
//! made in a scratch directory several levels deep.
use std::{
    fs,
    path::{Path as Dir, PathBuf},
    sync::atomic::{AtomicU64, Ordering},
};

use grovedb::{Element, GroveDb};
use kit::{ensure, ensure_eq, Ctx, Res, Spec};
use rocksdb::model as mem;

use crate::{
    audit::NULL,
    engine::{initial, snap_bytes, step, Db, State},
    entries,
    maps::{item, k, p, reads_in},
    model::{run as run_op, v, Model, Op},
    queries,
};

pub fn spec() -> Spec {
    Spec {
        id: "D20",
        level: "model_checking",
        run,
    }
}

/// A directory that is removed with everything in it.
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir()
            .join(format!("grovedb-mc-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)))
            .join("x/y/z");
        fs::create_dir_all(&d).unwrap();
        fs::write(d.join("neighbour"), "n").unwrap();
        fs::create_dir(d.join("dir")).unwrap();
        fs::write(d.join("dir/file"), "f").unwrap();
        Scratch(d)
    }
    fn path(&self, s: &str) -> PathBuf {
        self.0.join(s)
    }
    /// What there is: names, and contents of those that are no databases.
    fn list(&self) -> Vec<(String, Option<Vec<u8>>)> {
        fn go(d: &Dir, at: &str, out: &mut Vec<(String, Option<Vec<u8>>)>) {
            let mut all: Vec<_> = fs::read_dir(d).into_iter().flatten().flatten().collect();
            all.sort_by_key(|e| e.file_name());
            for e in all {
                let name = format!("{at}/{}", e.file_name().to_string_lossy());
                if e.path().is_dir() {
                    out.push((name.clone(), None));
                    go(&e.path(), &name, out);
                } else {
                    out.push((name, fs::read(e.path()).ok()));
                }
            }
        }
        let mut out = vec![];
        go(&self.0, "", &mut out);
        out
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let top = self.0.ancestors().nth(3).unwrap();
        assert!(top.file_name().unwrap().to_string_lossy().starts_with("grovedb-mc-"));
        let _ = fs::remove_dir_all(top);
    }
}

fn holds(db: &GroveDb, st: &State) -> Res {
    reads_in(db, &st.model, None)?;
    let root = db.root_hash(None, v()).unwrap().map_err(|e| format!("{e:?}"))?;
    ensure_eq!(root, st.audit.root_hash, "root hash");
    for (key, x) in &st.model.aux {
        let got = db.get_aux(key, None).unwrap().map_err(|e| format!("{e:?}"))?;
        ensure_eq!(got.as_ref(), Some(x), "auxiliary value");
    }
    Ok(())
}

/// All that can be done to the database after the checkpoint was made.
fn changes(st: &State) -> Vec<Op> {
    let mut out = vec![Op::Insert(vec![], k("new"), item("new")), Op::PutAux(k("x"), k("y"))];
    for (full, c) in st.model.map.iter() {
        let (key, path) = full.split_last().unwrap();
        out.push(Op::DeleteDeep(path.to_vec(), key.clone()));
        if !c.el.is_any_tree() && !c.el.is_reference() {
            out.push(Op::Insert(path.to_vec(), key.clone(), item("other")));
        }
        if c.el.is_any_tree() {
            out.push(Op::ClearDeep(full.clone()));
        }
    }
    out
}

fn checkpoint(st: &State, op: Option<&Op>, uncommitted: bool) -> Res {
    let e = |e: grovedb::Error| format!("{e:?}");
    let dir = Scratch::new();
    let at_first = dir.list();
    let live = Db::at(&st.snap);
    let cp = dir.path("cp");
    let tx = live.start_transaction();
    if uncommitted {
        live.insert([].as_ref() as &[&[u8]], b"uncommitted", item("u"), None, Some(&tx), v())
            .unwrap()
            .map_err(e)?;
    }
    live.create_checkpoint(&cp).map_err(e)?;
    ensure!(live.snap() == st.snap, "making a checkpoint changes the database");
    // not twice, not over something else
    let before = mem::snapshot(&cp);
    for other in [cp.clone(), dir.path("dir")] {
        ensure!(live.create_checkpoint(&other).is_err(), "a checkpoint at {other:?}, which exists");
    }
    ensure!(mem::snapshot(&cp) == before, "a refused checkpoint changes the first");
    if uncommitted {
        live.commit_transaction(tx).unwrap().map_err(e)?;
    } else {
        drop(tx);
    }
    if let Some(op) = op {
        let (_, _) = run_op(&live, op, None);
    }
    let after = live.snap();
    {
        let c = GroveDb::open_checkpoint(&cp).map_err(e)?;
        holds(&c, st)?;
        let issues = c.verify_grovedb(None, false, true, v()).map_err(e)?;
        ensure!(issues.is_empty(), "{} issues in the checkpoint", issues.len());
        ensure!(mem::snapshot(&cp).unwrap() == st.snap, "the checkpoint is not what was stored");
        // a checkpoint of a checkpoint
        c.create_checkpoint(dir.path("cp2")).map_err(e)?;
    }
    ensure!(mem::snapshot(dir.path("cp2")).unwrap() == st.snap, "the checkpoint of the checkpoint");
    ensure!(live.snap() == after, "opening the checkpoint changes the database");
    // opened as a database it can be changed, and that is nobody else's
    if let Some(op) = op {
        let c = GroveDb::open(&cp).map_err(e)?;
        holds(&c, st)?;
        let (_, _) = run_op(&c, op, None);
        drop(c);
        ensure!(live.snap() == after, "changing the checkpoint changes the database");
        ensure!(mem::snapshot(dir.path("cp2")).unwrap() == st.snap, "changing a checkpoint changes another");
    }
    // deleting: the one and nothing else
    let with = dir.list();
    for no in ["none", "dir", "dir/file", "neighbour", "dir/none"] {
        ensure!(GroveDb::delete_checkpoint(dir.path(no)).is_err(), "deleting {no}, which is no checkpoint");
        ensure!(GroveDb::open_checkpoint(dir.path(no)).is_err(), "opening {no}, which is no checkpoint");
        ensure!(dir.list() == with, "refusing {no} leaves {:?}", dir.list());
    }
    GroveDb::delete_checkpoint(dir.path("cp2")).map_err(e)?;
    ensure!(!dir.path("cp2").exists() && cp.exists(), "after deleting cp2: {:?}", dir.list());
    ensure!(GroveDb::open_checkpoint(dir.path("cp2")).is_err(), "a deleted checkpoint opens");
    GroveDb::open_checkpoint(&cp).map_err(e)?;
    GroveDb::delete_checkpoint(&cp).map_err(e)?;
    ensure!(dir.list() == at_first, "after deleting both: {:?}", dir.list());
    ensure!(live.snap() == after, "deleting checkpoints changes the database");
    // its place can be used again
    live.create_checkpoint(&cp).map_err(e)?;
    ensure!(mem::snapshot(&cp).unwrap() == after, "the second checkpoint is not what was stored");
    GroveDb::delete_checkpoint(&cp).map_err(e)
}

fn reopened(st: &State) -> Res {
    let e = |e: grovedb::Error| format!("{e:?}");
    let mut db = Db::at(&st.snap);
    for _ in 0..2 {
        {
            let tx = db.start_transaction();
            db.insert([].as_ref() as &[&[u8]], b"uncommitted", item("u"), None, Some(&tx), v())
                .unwrap()
                .map_err(e)?;
        }
        db.flush().map_err(e)?;
        ensure!(db.snap() == st.snap, "flushing changes the database");
        let path = db.path.clone();
        db.db = None;
        ensure!(mem::snapshot(&path).unwrap() == st.snap, "closing changes the database");
        db.db = Some(GroveDb::open(&path).map_err(e)?);
        ensure!(db.snap() == st.snap, "opening changes the database");
        holds(&db, st)?;
    }
    Ok(())
}

fn wiped(st: &State, ops: &[Op]) -> Res {
    let e = |e: grovedb::Error| format!("{e:?}");
    let empty = Db::new();
    let db = Db::at(&st.snap);
    for _ in 0..2 {
        db.wipe().map_err(e)?;
        ensure!(db.snap().is_empty(), "{} entries left", db.snap().len());
        ensure_eq!(db.root_hash(None, v()).unwrap().map_err(e)?, NULL, "root hash");
        reads_in(&db, &Model::default(), None)?;
        for key in st.model.aux.keys() {
            ensure!(db.get_aux(key, None).unwrap().map_err(e)?.is_none(), "an auxiliary value is left");
        }
    }
    // and used as a new one
    for op in ops {
        let (a, _) = run_op(&db, op, None);
        let (b, _) = run_op(&empty, op, None);
        ensure_eq!(a, b, "{} after wiping", op.show());
    }
    ensure!(db.snap() == empty.snap(), "not like a new database");
    Ok(())
}

fn run(ctx: &Ctx) {
    let mut worlds: Vec<(String, Vec<Op>)> = queries::worlds().into_iter().map(|(n, o)| (n.into(), o)).collect();
    use crate::entries::Kind as K;
    for (kind, n) in [(K::Mmr, 3), (K::Bulk(1), 3), (K::Dense(2), 3)] {
        worlds.push((kind.name(), entries::worlds(kind, n).0));
    }
    worlds.push((
        "auxiliary values".into(),
        vec![
            Op::PutAux(k("a"), k("1")),
            Op::PutAux(vec![0xff; 40], vec![]),
            Op::Insert(vec![], vec![0xff; 3], Element::empty_tree()),
            Op::Insert(vec![vec![0xff; 3]], vec![], item("e")),
        ],
    ));
    let _ = p;
    for (name, ops) in &worlds {
        let mut st = initial(&[]).unwrap();
        let mut all = vec![st.clone()];
        for op in ops {
            let db = Db::at(&st.snap);
            st = step(&st, op, &db).unwrap_or_else(|e| panic!("{name}: {}: {e}", op.show())).1;
            all.push(st.clone());
        }
        let ids: Vec<usize> = (0..all.len()).filter(|i| ctx.thorough || i % 4 == 0 || i + 1 == all.len()).collect();
        ctx.bound(format!("{name}: {} states", ids.len()));
        ctx.par(&ids, |i| {
            let st = &all[*i];
            ctx.state(&snap_bytes(&st.snap));
            let at = |what: String| format!("{name} after {i}; {what}");
            ctx.step();
            ctx.case(|| at("reopened".into()), || reopened(st));
            ctx.step();
            ctx.case(|| at("wiped".into()), || wiped(st, ops));
            let changes = changes(st);
            let some = if ctx.thorough { changes.len() } else { 6 };
            let step_by = changes.len().div_ceil(some);
            for op in [None].into_iter().chain(changes.iter().step_by(step_by).map(Some)) {
                for uncommitted in [false, true] {
                    ctx.step();
                    ctx.case(
                        || at(format!("checkpoint, {}{}", op.map_or("nothing".into(), |o| o.show()), if uncommitted { ", uncommitted" } else { "" })),
                        || checkpoint(st, op, uncommitted),
                    );
                }
            }
        });
    }
    // a path of one component is never deleted
    ctx.step();
    ctx.case(
        || "a checkpoint at a path of one component".into(),
        || {
            let dir = Scratch::new();
            let home = std::env::current_dir().map_err(|e| e.to_string())?;
            std::env::set_current_dir(&dir.0).map_err(|e| e.to_string())?;
            let r = (|| {
                let db = Db::new();
                db.create_checkpoint("one").map_err(|e| format!("{e:?}"))?;
                ensure!(GroveDb::delete_checkpoint("one").is_err(), "deleted");
                ensure!(dir.path("one").exists(), "gone");
                GroveDb::delete_checkpoint("./one").map_err(|e| format!("./one: {e:?}"))
            })();
            std::env::set_current_dir(home).map_err(|e| e.to_string())?;
            r
        },
    );
}
