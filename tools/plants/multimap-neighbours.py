# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext/multi_map.rs",
  "        let mut map = Self::new();\n        for (key, value) in iterator {\n            match map.get_mut(&key) {\n                None => {\n                    map.insert(key, vec![value]);\n                }\n                Some(values) => {\n                    values.push(value);\n                }\n            }\n        }\n        map\n",
  "        // Most of the time the next key is the same again.\n        let mut map = Self::new();\n        let mut run: Option<(K, Vec<V>)> = None;\n        for (key, value) in iterator {\n            match &mut run {\n                Some((known, values)) if *known == key => values.push(value),\n                _ => {\n                    if let Some((known, values)) = run.replace((key, vec![value])) {\n                        map.insert(known, values);\n                    }\n                }\n            }\n        }\n        map.extend(run);\n        map\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
