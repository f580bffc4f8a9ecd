//! Support code for compiled batches of generated types.
use serde::{de::DeserializeOwned, Serialize};

/// text -> value of the generated type -> text
pub fn de<T: DeserializeOwned + Serialize>(s: &str) -> Result<String, String> {
    let v: T = serde_json::from_str(s).map_err(|e| format!("deserialise: {e}"))?;
    serde_json::to_string(&v).map_err(|e| format!("serialise: {e}"))
}

/// Input lines: index TAB json; output lines: index TAB ok|err TAB text
pub fn main(table: &[(usize, fn(&str) -> Result<String, String>)]) {
    let input = std::fs::read_to_string(std::env::args().nth(1).expect("input file")).expect("input");
    let mut out = String::new();
    for line in input.lines() {
        let (i, json) = line.split_once('\t').expect("tab");
        let i: usize = i.parse().expect("index");
        let f = table.iter().find(|x| x.0 == i).expect("module").1;
        match f(json) {
            Ok(s) => out += &format!("{i}\tok\t{s}\n"),
            Err(e) => out += &format!("{i}\terr\t{}\n", e.replace('\n', " ")),
        }
    }
    print!("{out}");
}
