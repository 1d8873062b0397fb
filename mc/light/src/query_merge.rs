// ---------------------------------------------------------------------- C09

/// What a merged query has to select: everything any of the queries selects.
/// A position that one query asks for itself while another one asks for what is
/// below it can only be answered with what is below it.
fn union(parts: &[BTreeSet<Vec<K>>]) -> BTreeSet<Vec<K>> {
    let all: BTreeSet<Vec<K>> = parts.iter().flatten().cloned().collect();
    all.iter()
        .filter(|p| {
            !all.iter()
                .any(|q| q.len() > p.len() && q.starts_with(&p[..]))
        })
        .cloned()
        .collect()
}

fn diff(got: &BTreeSet<Vec<K>>, want: &BTreeSet<Vec<K>>) -> Res {
    let f = |p: &Vec<K>| p.iter().map(|k| hex(k)).collect::<Vec<_>>().join("/");
    if let Some(p) = want.difference(got).next() {
        return Err(format!("{} is no longer selected", f(p)));
    }
    if let Some(p) = got.difference(want).next() {
        return Err(format!("{} is selected by none of them", f(p)));
    }
    Ok(())
}

/// Short form of a query: items, {default}, and conditional branches.
pub fn sq(q: &Query) -> String {
    let br = |b: &SubqueryBranch| {
        let mut s = String::new();
        if let Some(p) = &b.subquery_path {
            s += &format!("/{}/", p.iter().map(|k| hex(k)).collect::<Vec<_>>().join("/"));
        }
        if let Some(q) = &b.subquery {
            s += &sq(q);
        }
        s
    };
    let mut s = format!("[{}]{{{}}}", shows(&q.items), br(&q.default_subquery_branch));
    for (i, b) in q.conditional_subquery_branches.iter().flatten() {
        s += &format!("({}:{})", show(i), br(b));
    }
    s
}

fn k(b: u8) -> K {
    vec![b]
}

/// Queries with at most `levels` levels below the top one; every conditional
/// branch is for keys among the items.
pub fn query_family(levels: usize, rich: bool) -> Vec<Query> {
    let item_sets: Vec<Vec<QueryItem>> = if rich {
        vec![
            vec![QueryItem::Key(k(1))],
            vec![QueryItem::Key(k(2))],
            vec![QueryItem::RangeFull(..)],
            vec![QueryItem::RangeInclusive(k(1)..=k(2))],
            vec![QueryItem::Key(k(1)), QueryItem::RangeAfter(k(2)..)],
        ]
    } else {
        vec![
            vec![QueryItem::Key(k(1))],
            vec![QueryItem::RangeFrom(k(2)..)],
        ]
    };
    let mut v = vec![];
    let mut bs = vec![SubqueryBranch::default()];
    if levels > 0 {
        let subs = query_family(levels - 1, false);
        for s in &subs {
            bs.push(SubqueryBranch {
                subquery_path: None,
                subquery: Some(Box::new(s.clone())),
            });
        }
        let paths = if rich {
            vec![vec![k(1)], vec![k(1), k(2)], vec![k(2)]]
        } else {
            vec![vec![k(1)]]
        };
        for p in paths {
            bs.push(SubqueryBranch {
                subquery_path: Some(p.clone()),
                subquery: None,
            });
            for s in subs.iter().step_by(if rich { 1 } else { 3 }) {
                bs.push(SubqueryBranch {
                    subquery_path: Some(p.clone()),
                    subquery: Some(Box::new(s.clone())),
                });
            }
        }
    }
    for items in &item_sets {
        for b in &bs {
            let q = Query {
                items: items.clone(),
                default_subquery_branch: b.clone(),
                ..Query::new()
            };
            v.push(q.clone());
            if levels > 0 && rich {
                for b2 in bs.iter().step_by(2) {
                    let mut q = q.clone();
                    let key = items.iter().find_map(|i| match i {
                        QueryItem::Key(k) => Some(k.clone()),
                        _ => None,
                    });
                    q.add_conditional_subquery(
                        QueryItem::Key(key.unwrap_or(k(2))),
                        b2.subquery_path.clone(),
                        b2.subquery.clone().map(|b| *b),
                    );
                    v.push(q);
                }
            }
        }
    }
    v
}

fn c09(c: &Ctx) {
    let keys = vec![k(1), k(2), k(3)];
    let fam = query_family(c.pick(1, 2), true);
    let evals: Vec<BTreeSet<Vec<K>>> = fam.iter().map(|q| eval(q, &keys)).collect();
    c.bound(format!("all pairs of {} queries", fam.len()));
    // long paths that have a part in common
    let most = c.pick(12usize, 40);
    c.bound(format!("branches with paths of up to {most} segments, the first of them in common, all pairs"));
    let branch = |common: usize, rest: &[u8], sub: bool| SubqueryBranch {
        subquery_path: (common + rest.len() > 0).then(|| (0..common).map(|_| k(1)).chain(rest.iter().map(|b| k(*b))).collect()),
        subquery: sub.then(|| Box::new(Query { items: vec![QueryItem::Key(k(2))], ..Query::new() })),
    };
    let mut long = vec![];
    for common in 0..=most {
        for rest in [vec![], vec![2], vec![3, 1]] {
            for sub in [true, false] {
                long.push(Query {
                    items: vec![QueryItem::Key(k(1)), QueryItem::Key(k(2))],
                    default_subquery_branch: branch(common, &rest, sub),
                    ..Query::new()
                });
            }
        }
    }
    let all_of: Vec<BTreeSet<Vec<K>>> = long.iter().map(|q| eval(q, &keys)).collect();
    let at: Vec<usize> = (0..long.len()).collect();
    c.par(&at, |i| {
        for j in 0..long.len() {
            let (a, b) = (&long[*i], &long[j]);
            c.step();
            c.case(
                || format!("merge long {} | {}", sq(a), sq(b)),
                || {
                    let want = union(&[all_of[*i].clone(), all_of[j].clone()]);
                    let m = Query::merge_multiple(vec![a.clone(), b.clone()]);
                    diff(&eval(&m, &keys), &want)?;
                    let mut w = a.clone();
                    w.merge_with(b.clone());
                    diff(&eval(&w, &keys), &want)
                },
            );
        }
    });
    let idx: Vec<usize> = (0..fam.len()).collect();
    c.par(&idx, |i| {
        for j in 0..fam.len() {
            if c.out_of_time() {
                return;
            }
            let (a, b) = (&fam[*i], &fam[j]);
            c.case(
                || format!("merge {} | {}", sq(a), sq(b)),
                || {
                    let want = union(&[evals[*i].clone(), evals[j].clone()]);
                    let m = Query::merge_multiple(vec![a.clone(), b.clone()]);
                    diff(&eval(&m, &keys), &want)?;
                    let mut w = a.clone();
                    w.merge_with(b.clone());
                    diff(&eval(&w, &keys), &want)?;
                    c.state(sq(&m).as_bytes());
                    // the same as the branches below some key
                    let br = |q: &Query| SubqueryBranch {
                        subquery_path: None,
                        subquery: Some(Box::new(q.clone())),
                    };
                    let mb = br(a).merge(&br(b));
                    let top = |b: &SubqueryBranch| Query {
                        items: vec![QueryItem::Key(k(3))],
                        default_subquery_branch: b.clone(),
                        ..Query::new()
                    };
                    let below: BTreeSet<Vec<K>> = want
                        .iter()
                        .map(|p| std::iter::once(k(3)).chain(p.iter().cloned()).collect())
                        .collect();
                    diff(&eval(&top(&mb), &keys), &below)
                },
            );
        }
    });
    // subquery paths in every relative position
    let paths: Vec<Option<Vec<K>>> = std::iter::once(None)
        .chain((1..=3).flat_map(|n| {
            kit::all_sequences(2, n)
                .into_iter()
                .map(|s| Some(s.iter().map(|i| k(*i as u8 + 1)).collect::<Vec<K>>()))
        }))
        .collect();
    let leafs = vec![
        None,
        Some(Query::new_single_key(k(1))),
        Some(Query::new_single_query_item(QueryItem::RangeFrom(k(2)..))),
        Some({
            let mut q = Query::new_single_query_item(QueryItem::RangeFull(..));
            q.set_subquery_key(k(2));
            q
        }),
        Some({
            let mut q = Query::new_single_key(k(1));
            q.set_subquery(Query::new_single_key(k(3)));
            q
        }),
    ];
    let bs: Vec<SubqueryBranch> = branches(&leafs, &paths);
    c.bound(format!("all pairs and a part of the triples of {} subquery branches", bs.len()));
    let top = |b: &SubqueryBranch| Query {
        items: vec![QueryItem::Key(k(2)), QueryItem::Key(k(3))],
        default_subquery_branch: b.clone(),
        ..Query::new()
    };
    let be: Vec<BTreeSet<Vec<K>>> = bs.iter().map(|b| eval(&top(b), &keys)).collect();
    let idx: Vec<usize> = (0..bs.len()).collect();
    c.par(&idx, |i| {
        for j in 0..bs.len() {
            c.case(
                || format!("branches {} | {}", sq(&top(&bs[*i])), sq(&top(&bs[j]))),
                || {
                    let m = bs[*i].merge(&bs[j]);
                    diff(&eval(&top(&m), &keys), &union(&[be[*i].clone(), be[j].clone()]))?;
                    c.state(sq(&top(&m)).as_bytes());
                    for l in (0..bs.len()).step_by(c.pick(7, 1)) {
                        c.step();
                        let m3 = m.merge(&bs[l]);
                        let u = union(&[be[*i].clone(), be[j].clone(), be[l].clone()]);
                        diff(&eval(&top(&m3), &keys), &u)
                            .map_err(|e| format!("and {}: {e}", sq(&top(&bs[l]))))?;
                    }
                    Ok(())
                },
            );
        }
    });
    // three queries at once
    let few: Vec<usize> = (0..fam.len()).step_by(c.pick(11, 61)).collect();
    c.bound(format!("all triples of {} of the queries", few.len()));
    c.par(&few, |i| {
        for j in &few {
            for l in &few {
                c.case(
                    || format!("merge {} | {} | {}", sq(&fam[*i]), sq(&fam[*j]), sq(&fam[*l])),
                    || {
                        let want = union(&[evals[*i].clone(), evals[*j].clone(), evals[*l].clone()]);
                        let m = Query::merge_multiple(vec![
                            fam[*i].clone(),
                            fam[*j].clone(),
                            fam[*l].clone(),
                        ]);
                        diff(&eval(&m, &keys), &want)
                    },
                );
            }
        }
    });
}

// ---------------------------------------------------------------------- C12

fn c12(c: &Ctx) {
    let keys: Vec<K> = vec![vec![], k(0), k(1), k(2), k(3)];
    let item_sets: Vec<Vec<QueryItem>> = vec![
        vec![QueryItem::Key(k(1))],
        vec![QueryItem::Key(vec![]), QueryItem::Key(k(3))],
        vec![QueryItem::Range(vec![]..k(2))],
        vec![QueryItem::Range(k(1)..k(3))],
        vec![QueryItem::RangeInclusive(k(1)..=k(2))],
        vec![QueryItem::Key(k(0)), QueryItem::RangeInclusive(k(2)..=k(3))],
    ];
    // queries without branches, then with branches of those, and so on
    let mut level: Vec<Query> = item_sets
        .iter()
        .map(|i| Query {
            items: i.clone(),
            ..Query::new()
        })
        .collect();
    let mut fam = level.clone();
    for depth in 0..2 {
        let step = if depth == 0 { 1 } else { c.pick(97, 23) };
        let subs: Vec<Query> = level.iter().step_by(step).cloned().collect();
        let mut bs = branches(
            &std::iter::once(None)
                .chain(subs.into_iter().map(Some))
                .collect::<Vec<_>>(),
            &[None, Some(vec![k(1)]), Some(vec![k(2), k(0)])],
        );
        bs.truncate(c.pick(60, 120));
        let mut next = vec![];
        for items in &item_sets {
            for b in &bs {
                let q = Query {
                    items: items.clone(),
                    default_subquery_branch: b.clone(),
                    ..Query::new()
                };
                next.push(q.clone());
                // a key, a whole item, or a range beyond the items with its own branch
                let wide = QueryItem::RangeInclusive(k(0)..=k(2));
                let add = |q: &Query, cond: &QueryItem, b: &SubqueryBranch| {
                    let mut q = q.clone();
                    q.add_conditional_subquery(cond.clone(), b.subquery_path.clone(), b.subquery.clone().map(|b| *b));
                    q
                };
                let conds: Vec<QueryItem> = [Some(items[0].clone()), first_key(&items[0]), Some(wide)].into_iter().flatten().collect();
                for (i, b2) in bs.iter().enumerate() {
                    for cond in &conds {
                        let one = add(&q, cond, b2);
                        // and another one after it
                        if i % 5 == 0 {
                            for (j, other) in conds.iter().enumerate() {
                                next.push(add(&one, other, &bs[(i * 3 + j + 1) % bs.len()]));
                            }
                        }
                        next.push(one);
                    }
                }
            }
        }
        fam.extend(next.iter().cloned());
        level = next;
    }
    c.bound(format!(
        "{} queries up to 3 levels, up to two conditional branches, also beyond the items and overlapping, every max_results up to one more than the number of terminal keys",
        fam.len()
    ));
    c.par(&fam, |q| {
        c.case(
            || format!("terminal keys of {}", sq(q)),
            || {
                let want: Vec<Vec<K>> = eval(q, &keys).into_iter().collect();
                let base = vec![k(9)];
                let n = want.len();
                c.state(sq(q).as_bytes());
                let maxes: Vec<usize> = if n <= 8 { (0..=n + 1).collect() } else { vec![0, 1, n / 2, n - 1, n, n + 1] };
                for max in maxes {
                    c.step();
                    let mut got = vec![];
                    match q.terminal_keys(base.clone(), max, &mut got) {
                        Ok(added) => {
                            ensure!(n <= max, "{n} keys with max_results {max}");
                            ensure_eq!(added, got.len(), "number reported");
                            let mut got: Vec<Vec<K>> = got
                                .into_iter()
                                .map(|(mut p, k)| {
                                    p.push(k);
                                    p.remove(0);
                                    p
                                })
                                .collect();
                            got.sort();
                            ensure_eq!(got, want, "terminal keys");
                        }
                        Err(e) => ensure!(n > max, "max_results {max} for {n} keys: {e}"),
                    }
                }
                Ok(())
            },
        );
    });
    // ranges without an end have no list of keys
    for i in items(&[vec![], k(1), vec![1, 1]], true) {
        c.case(
            || format!("terminal keys of the single item {}", show(&i)),
            || {
                let q = Query::new_single_query_item(i.clone());
                let mut got = vec![];
                let r = q.terminal_keys(vec![], 1000, &mut got);
                if let Ok(n) = r {
                    ensure_eq!(n, got.len(), "count");
                    ensure!(!i.is_unbounded_range(), "a list for an unbounded range");
                    for (_, key) in &got {
                        ensure!(selects(&i, key), "{} is not selected", hex(key));
                    }
                    for b in strings(&(0..8).collect::<Vec<u8>>(), 1) {
                        ensure!(
                            !selects(&i, &b) || got.iter().any(|(_, x)| *x == b),
                            "{} is missing",
                            hex(&b)
                        );
                    }
                }
                Ok(())
            },
        );
    }
    // branches for many keys at once
    for n in [1usize, 5, 6, 7, 20, 30, 100] {
        for (what, with) in [("path", true), ("query", false)] {
            c.case(
                || format!("terminal keys of a range of {n} keys with a {what} of their own"),
                || {
                    let range = QueryItem::RangeInclusive(vec![10]..=vec![9 + n as u8]);
                    let mut q = Query::new();
                    q.insert_item(QueryItem::RangeInclusive(vec![10]..=vec![11 + n as u8]));
                    let below = Query::new_single_key(k(7));
                    if with {
                        q.add_conditional_subquery(range, Some(vec![k(5), k(6)]), None);
                    } else {
                        q.add_conditional_subquery(range, None, Some(below));
                    }
                    let mut want: Vec<(Vec<K>, K)> = (0..n as u8)
                        .map(|i| if with { (vec![vec![10 + i], k(5)], k(6)) } else { (vec![vec![10 + i]], k(7)) })
                        .collect();
                    want.extend((n as u8..n as u8 + 2).map(|i| (vec![], vec![10 + i])));
                    let mut got = vec![];
                    let x = q.terminal_keys(vec![], 1000, &mut got).map_err(|e| e.to_string())?;
                    ensure_eq!(x, want.len(), "count");
                    got.sort();
                    want.sort();
                    ensure_eq!(got, want, "keys");
                    let mut got = vec![];
                    ensure!(q.terminal_keys(vec![], n, &mut got).is_err(), "too many are told");
                    Ok(())
                },
            );
        }
    }
    for n in [1usize, 200, 255, 256, 300, 1000, 65_534] {
        c.case(
            || format!("depth of a path of {n} segments"),
            || {
                let mut q = Query::new_single_key(k(1));
                q.default_subquery_branch.subquery_path = Some(vec![k(1); n]);
                ensure_eq!(q.max_depth(), Some(n as u16 + 1), "max_depth");
                Ok(())
            },
        );
    }
    for n in [10usize, 60, 64, 65, 100, 200] {
        c.case(
            || format!("terminal keys {n} levels deep"),
            || {
                let mut q = Query::new_single_key(k(1));
                for _ in 1..n {
                    let mut o = Query::new_single_key(k(1));
                    o.set_subquery(q);
                    q = o;
                }
                let mut got = vec![];
                match q.terminal_keys(vec![], 10, &mut got) {
                    Ok(x) => {
                        ensure_eq!(x, 1, "count");
                        ensure_eq!(got[0].0.len() + 1, n, "depth");
                    }
                    Err(_) => ensure!(n >= 64, "refused {n} levels"),
                }
                // a single key per level: the depth is the number of levels
                if n < 255 {
                    ensure_eq!(q.max_depth(), Some(n as u16), "max_depth");
                }
                Ok(())
            },
        );
    }
    c.par(&fam, |q| {
        c.case(
            || format!("depth of {}", sq(q)),
            || {
                fn d(b: &SubqueryBranch) -> u16 {
                    b.subquery_path.as_ref().map_or(0, |p| p.len() as u16)
                        + b.subquery.as_ref().map_or(0, |q| depth(q))
                }
                fn depth(q: &Query) -> u16 {
                    1 + q
                        .conditional_subquery_branches
                        .iter()
                        .flatten()
                        .map(|(_, b)| d(b))
                        .max()
                        .unwrap_or(0)
                        .max(d(&q.default_subquery_branch))
                }
                ensure_eq!(q.max_depth(), Some(depth(q)), "max_depth");
                let d = &q.default_subquery_branch;
                let further = |b: &SubqueryBranch| b.subquery.is_some() || b.subquery_path.is_some();
                ensure_eq!(q.has_subquery(), further(d) || q.conditional_subquery_branches.is_some(), "has_subquery");
                for key in &keys {
                    ensure!(q.has_subquery_on_key(key, true), "has_subquery_on_key in the path");
                    ensure!(q.has_subquery_or_subquery_path_on_key(key, true), "has_subquery_or_subquery_path_on_key in the path");
                    // the first branch for the key, or the default one
                    let own = q.conditional_subquery_branches.iter().flatten().find(|(i, _)| selects(i, key)).map(|(_, b)| b);
                    let b = own.unwrap_or(d);
                    if own.is_none() || d.subquery.is_none() {
                        ensure_eq!(q.has_subquery_on_key(key, false), b.subquery.is_some(), "has_subquery_on_key {}", hex(key));
                    }
                    if further(b) {
                        ensure!(q.has_subquery_or_subquery_path_on_key(key, false), "has_subquery_or_subquery_path_on_key {}", hex(key));
                    } else if own.is_none() {
                        ensure!(!q.has_subquery_or_subquery_path_on_key(key, false), "has_subquery_or_subquery_path_on_key {} without any", hex(key));
                    }
                }
                Ok(())
            },
        );
    });
}

fn first_key(i: &QueryItem) -> Option<QueryItem> {
    match i {
        QueryItem::Key(_) => None,
        i => i.keys().ok().and_then(|k| k.into_iter().last()).map(QueryItem::Key),
    }
}
