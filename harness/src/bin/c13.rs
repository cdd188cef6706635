//! What the program prints about the devices it was given.
use mdv::cli::{tokens, Board, Kind};
use mdv::mixed;
use mdv::run::{self, Case, Spec, Verdict};
use std::collections::BTreeMap;

/// Names of the fields that a diagnosis prints, and of the oracle's.
const FIELDS: [(&str, &str); 12] = [
    ("device_too_small_problem", "too small"),
    ("missing_superblock_problem", "no superblock"),
    ("array_uuid_problem", "uuid"),
    ("array_name_problem", "name"),
    ("algorithm_problem", "algorithm"),
    ("size_problem", "size"),
    ("chunk_size_problem", "chunk"),
    ("device_count_problem", "devices"),
    ("reshape_problem", "reshape"),
    ("event_count_problem", "events"),
    ("device_role_index_problem", "index"),
    ("device_roles_problem", "roles"),
];

fn case(c: &mut Case) -> Verdict {
    let mut b = Board::new(c, "devices");
    if c.rng.chance(14, 15) {
        let set = mixed::generate(c);
        b.set(c, &set);
    }
    let bad = match c.rng.below(200) {
        0 => 40 + c.rng.below(300),
        n if n % 2 == 0 => 0,
        _ => 1 + c.rng.below(4),
    };
    if bad > 4 {
        c.hit("many paths");
    }
    for _ in 0..bad {
        let what = b.failing(&mut c.rng);
        c.hit_dyn(format!("path: {what}"));
    }
    if bad > 0 && c.rng.chance(1, 4) {
        for _ in 0..1 + c.rng.below(3) {
            b.odd(&mut c.rng);
        }
    }
    let mut order: Vec<usize> = (0..b.items.len()).collect();
    for _ in 0..c.rng.below(3) {
        if c.rng.chance(1, 3) && !order.is_empty() {
            let again = *c.rng.pick(&order);
            order.push(again);
            c.hit("path given twice");
        }
    }
    c.rng.shuffle(&mut order);
    if c.rng.chance(1, 4) {
        let n = c.rng.usize_below(order.len() + 1);
        order.truncate(n);
    }
    c.nontrivial();
    for i in &order {
        c.fp_bytes(b.items[*i].path.as_os_str().as_encoded_bytes());
    }
    let given: Vec<_> = order.iter().map(|i| &b.items[*i]).collect();
    c.describe(|| format!("{:?}", given.iter().map(|i| (i.path.file_name(), std::mem::discriminant(&i.kind))).collect::<Vec<_>>()));
    let r = judge(c, &b, &order);
    b.remove();
    r
}

fn judge(c: &mut Case, b: &Board, order: &[usize]) -> Verdict {
    let args = b.args(&mut c.rng, order);
    let out = b.run(&args, &[], &[])?;
    let text = format!("{}\n{}", String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr));
    let given: Vec<_> = order.iter().map(|i| &b.items[*i]).collect();
    let mut failing: BTreeMap<String, usize> = BTreeMap::new();
    let mut odd: Vec<&str> = vec![];
    let mut supers = vec![];
    for i in &given {
        match &i.kind {
            Kind::Fails(_) if i.token.is_empty() => odd.push(i.path.to_str().unwrap()),
            Kind::Fails(_) => *failing.entry(i.token.clone()).or_default() += 1,
            Kind::Opens(s) => supers.push((i.token.clone(), s.clone())),
        }
    }
    let show = || format!("{} paths: {:.3000}; output:\n{text:.1500}", given.len(), format!("{:?}", given.iter().map(|i| (&i.path, match &i.kind { Kind::Fails(w) => w, _ => "opens" })).collect::<Vec<_>>()));
    mdv::ensure!(text.trim().len() > 1, "nothing was printed: {}", show());
    if !failing.is_empty() || !odd.is_empty() {
        mdv::ensure_eq!(tokens(&text), failing, "paths reported (those that fail to open, each as often as given); {}", show());
        c.count("failing paths reported", failing.len() as u64);
        let mut plain = vec![];
        // One line each, even for a path with a line break in it.
        for line in text.lines().filter(|l| !l.trim().is_empty()) {
            let n: usize = tokens(line).values().sum();
            if n == 0 && !odd.is_empty() {
                plain.push(line);
            } else {
                mdv::ensure_eq!(n, 1, "paths reported in the line {line:?}; {}", show());
            }
        }
        mdv::ensure_eq!(plain.len(), odd.len(), "lines that are not about the others, for {odd:?}: {plain:?}; {}", show());
        for path in &odd {
            mdv::ensure!(plain.iter().any(|l| l.contains(path)), "no line is about {path:?}; {}", show());
            c.hit("path that looks like something else");
        }
        // The outcome of a path does not depend on the others.
        let fails: Vec<usize> = (0..given.len()).filter(|k| matches!(given[*k].kind, Kind::Fails(_))).collect();
        if c.rng.chance(1, 4) {
            for _ in 0..3 {
                let k = *c.rng.pick(&fails);
                let alone = b.run(&args[k..=k], &[], &[])?;
                let line = format!("{}{}", String::from_utf8_lossy(&alone.stdout), String::from_utf8_lossy(&alone.stderr));
                mdv::ensure!(
                    !line.trim().is_empty() && text.contains(line.trim_end()),
                    "given alone, {:?} is reported as {line:?}; among others it is not: {}",
                    args[k], show()
                );
                c.hit("path reported as when given alone");
            }
        }
        if !supers.is_empty() {
            c.hit("failing paths among others");
        }
        return Ok(());
    }
    let expected = mixed::expected(&supers.iter().map(|s| s.1.clone()).collect::<Vec<_>>());
    for (k, (field, name)) in FIELDS.iter().enumerate() {
        let Some(at) = text.find(&format!(" {field}:")) else {
            return Err(run::Stop::v(format!("the diagnosis does not mention {field}: {}", show())));
        };
        let section = &text[at..];
        let end = FIELDS
            .iter()
            .enumerate()
            .filter(|(j, _)| *j != k)
            .filter_map(|(_, (f, _))| section.find(&format!(" {f}:")))
            .min()
            .unwrap_or(section.len());
        let section = &section[field.len() + 2..end];
        let mut want: BTreeMap<String, usize> = BTreeMap::new();
        for who in expected.get(name).iter().flat_map(|m| m.values()).flatten() {
            *want.entry(supers[*who].0.clone()).or_default() += 1;
        }
        mdv::ensure_eq!(!section.trim_start().starts_with("None"), expected.contains_key(name), "whether {field} is reported; {}", show());
        mdv::ensure_eq!(tokens(section), want, "devices reported under {field}; {}", show());
        if want.is_empty() {
            c.hit("problems not there and not reported");
        } else {
            c.hit("problems reported");
            c.hit_dyn(format!("reported: {name}"));
        }
    }
    if supers.is_empty() {
        c.hit("no device given");
    } else if expected.is_empty() {
        c.hit("healthy array");
    }
    Ok(())
}

fn main() {
    run::main(
        Spec {
            id: "C13",
            rule: "One run of the md-recover program per case, on a set of image files standing in for block devices (members of a random array with altered, wiped, copied and undersized ones among them, block sizes 512-4096, reads that are short or interrupted) and, in half of the cases, paths that fail in ten different ways, in random order, with repetitions, relative and absolute, with hostile names, up to 340 at once; what is said of a path that fails is compared with what is said when it is given alone. Non-trivial: all; distinct by paths and order.",
            quick: 7500,
            thorough: 187_500,
            required: &["failing paths reported", "failing paths among others", "path given twice", "problems reported", "problems not there and not reported", "healthy array", "no device given", "path reported as when given alone", "many paths", "path that looks like something else"],
            assumptions: &["Image files with the two size ioctls answered by an interposer stand in for block devices"],
            ..Spec::default()
        },
        case,
    )
}
