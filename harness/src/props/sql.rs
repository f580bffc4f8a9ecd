//! SQL input: C17.
use super::core::{self, Ch};
use super::n;
use crate::case::Case;
use crate::gen::{self, Cfg, R};
use crate::json::{self, J};
use crate::model;
use crate::run::{Pass, Prop};
use crate::sut;
use proptest::test_runner::TestRng;
use std::sync::Arc;

/// A column is an object {"n": name, "t": type text, "o": [options], "q": quoting}; the table is the sample.
const STR: &[&str] = &["CHARACTER", "CHARACTER(20)", "CHAR", "CHAR(1)", "CHARACTER VARYING(7)", "CHARACTER VARYING", "CHAR VARYING(3)", "VARCHAR", "VARCHAR(255)", "NVARCHAR(10)", "NVARCHAR", "TEXT", "STRING"];
const INT: &[&str] = &[
    "TINYINT", "TINYINT(1)", "TINYINT UNSIGNED", "SMALLINT", "SMALLINT(3) UNSIGNED", "SMALLINT UNSIGNED", "MEDIUMINT", "MEDIUMINT UNSIGNED", "INT", "INT(11)", "INT UNSIGNED", "INT(10) UNSIGNED", "INTEGER",
    "INTEGER UNSIGNED", "INTEGER(4)", "BIGINT", "BIGINT(20)", "BIGINT UNSIGNED",
];
const BOOL: &[&str] = &["BOOLEAN"];
const DATE: &[&str] = &["DATE", "DATETIME", "DATETIME(6)", "TIMESTAMP", "TIMESTAMP(3)", "TIMESTAMP WITH TIME ZONE", "TIMESTAMP WITHOUT TIME ZONE", "TIMESTAMPTZ", "TIMESTAMP(6) WITH TIME ZONE", "TIMESTAMPTZ(3)"];
const ANY: &[&str] = &[
    "FLOAT", "FLOAT(8)", "REAL", "DOUBLE", "DOUBLE PRECISION", "NUMERIC", "NUMERIC(10, 2)", "DECIMAL(10,2)", "DECIMAL", "DEC(3)", "UUID", "JSON", "BLOB", "BLOB(50)", "BINARY(16)", "VARBINARY(16)", "BYTEA", "TIME", "TIME WITH TIME ZONE",
    "TIMETZ", "INTERVAL", "CLOB", "CHARACTER LARGE OBJECT", "ENUM('a', 'b')", "SET('x')", "ARRAY<INT>", "INT[]", "TEXT[]", "VARCHAR(10)[]", "SERIAL", "MONEY", "GEOMETRY(Point, 4326)", "my_type", "my_schema.my_type", "REGCLASS", "BOOL2",
];
/// The class of a column, from its type text.
fn kind(x: &J) -> &'static str {
    let t = if let Some(J::Str(s)) = x.get("t") { s.as_str() } else { "" };
    [("s", STR), ("i", INT), ("b", BOOL), ("d", DATE)].iter().find(|(_, v)| v.contains(&t)).map_or("u", |x| x.0)
}
fn class(k: &str) -> (&'static str, J) {
    match k {
        "s" => ("string", J::Str("x".into())),
        "i" => ("integer", J::Num("1".into())),
        "b" => ("bool", J::Bool(true)),
        "d" => ("Date", J::Str("x".into())),
        _ => ("any", J::Null),
    }
}
const OPTS: &[&str] = &[
    "NULL", "DEFAULT NULL", "DEFAULT 'NOT NULL'", "DEFAULT 0", "DEFAULT -1", "DEFAULT (1 + 2)", "DEFAULT CURRENT_TIMESTAMP", "PRIMARY KEY", "UNIQUE", "REFERENCES other(id)", "REFERENCES other", "REFERENCES s.other(id) ON DELETE CASCADE",
    "REFERENCES other(id) ON DELETE SET NULL ON UPDATE NO ACTION", "CHECK (1 > 0)", "CHECK (x IS NOT NULL)", "AUTO_INCREMENT", "COMMENT 'NOT NULL'", "COMMENT 'a, b); --'", "CONSTRAINT c1 UNIQUE", "GENERATED BY DEFAULT AS IDENTITY",
    "CHARACTER SET utf8",
];
const NOT_NULL: &[&str] = &["NOT NULL", "CONSTRAINT nn NOT NULL", "not null", "Not  Null"];
const BEFORE: &[&str] = &[
    "", "", "", "", "SELECT 1;", "DROP TABLE IF EXISTS t;", "-- CREATE TABLE x (y INT);\n", "/* CREATE TABLE x (y INT); */", "INSERT INTO x (a) VALUES (1);", "INSERT INTO x VALUES ('CREATE TABLE x (y INT)');", "CREATE VIEW v AS SELECT 1;",
    "CREATE SCHEMA s;", "ALTER TABLE x ADD COLUMN y INT;", ";",
];
const AFTER: &[&str] = &["", "", "", ";", "; SELECT 1", "; CREATE TABLE second (other TEXT NOT NULL);", "; CREATE INDEX i ON t (a);", "; INSERT INTO t VALUES (1)", "\n;\n", "; -- end"];
const HEADS: &[&str] = &["CREATE TABLE", "CREATE TABLE", "create table", "Create Table", "CREATE TABLE IF NOT EXISTS", "CREATE TEMPORARY TABLE", "CREATE TEMP TABLE IF NOT EXISTS", "CREATE OR REPLACE TABLE"];
const TABLES: &[&str] = &["t", "users", "s.t", "a.b.c", "\"Quoted Table\"", "\"s\".\"t\"", "_t1"];
const CONSTRAINTS: &[&str] = &["PRIMARY KEY (a)", "PRIMARY KEY (a, b)", "UNIQUE (a)", "CONSTRAINT u UNIQUE (a)", "CONSTRAINT pk PRIMARY KEY (id)", "FOREIGN KEY (a) REFERENCES o(id)", "CONSTRAINT fk FOREIGN KEY (a) REFERENCES o (id) ON DELETE CASCADE", "CHECK (a > 0)", "CONSTRAINT ch CHECK (a <> 'x')"];
const NAMES: &[&str] = &[
    "id", "name", "date", "text", "type", "value", "user", "timestamp", "int", "a", "b", "created_at", "MixedCase", "CAPS", "_x", "a1", "ключ", "x_y_z", "status", "order_id", "desc2", "boolean", "varchar", "null_count", "self", "fn", "class", "String",
];
const QUOTED: &[&str] = &["with space", "a-b", "a.b", "select", "order", "ÆØÅ", "1st", "a'b", "a,b", "a)b", "--x", "group", "primary", "key", "a;b", "$", "NOT NULL", " lead", "a\\b", "/*", "é", "a\"b", "a`b", "\"", "``"];

fn script(c: &Case, ch: &mut Ch) -> String {
    let J::Arr(cols) = &c.sample else { return String::new() };
    let t = |c: &J, k: &str| if let Some(J::Str(s)) = c.get(k) { s.clone() } else { String::new() };
    let ws = |ch: &mut Ch| [" ", " ", " ", "\n", "\t", "  ", " /* c, d) */ ", " -- x\n"][ch.below(8)];
    let pick = |ch: &mut Ch, v: &[&'static str]| v[ch.below(v.len())];
    let case = |s: &str, ch: &mut Ch| match ch.below(4) {
        0 if !s.contains('\'') && !s.contains('"') => s.to_lowercase(),
        _ => s.to_string(),
    };
    let mut v = vec![];
    for col in cols {
        let n = t(col, "n");
        let n = match t(col, "q").as_str() {
            "\"" => format!("\"{}\"", n.replace('"', "\"\"")),
            _ => n,
        };
        let mut s = format!("{n}{}{}", ws(ch), case(&t(col, "t"), ch));
        if let Some(J::Arr(o)) = col.get("o") {
            for x in o {
                if let J::Str(x) = x {
                    s += ws(ch);
                    s += x;
                }
            }
        }
        v.push(s);
    }
    let k = [0, 0, 0, 1, 2][ch.below(5)];
    for _ in 0..k {
        v.push(pick(ch, CONSTRAINTS).to_string());
    }
    let mut s = format!("{}{}{}{}{}{}(", pick(ch, BEFORE), ws(ch), pick(ch, HEADS), ws(ch), pick(ch, TABLES), ws(ch));
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s += ws(ch);
        s += x;
    }
    s += ws(ch);
    s.push(')');
    s += ["", "", "", " ENGINE=InnoDB", " WITHOUT ROWID"][ch.below(5)];
    s + pick(ch, AFTER)
}
fn check(c: &Case) -> Result<Pass, String> {
    let t = |c: &J, k: &str| if let Some(J::Str(s)) = c.get(k) { s.clone() } else { String::new() };
    if c.get("_bad") == "true" {
        let text = c.texts.first().cloned().unwrap_or_default();
        let q = c.clone().opt("input_mode", "sql");
        return match sut::generate_text(&q, &text) {
            Ok(o) => Err(format!("code is generated for a script that does not parse or creates no table:\n{text}\n--- code\n{o}")),
            Err(_) => Ok(Pass::of(vec!["rejected"], text.len() > 3)),
        };
    }
    let J::Arr(cols) = &c.sample else { return Pass::skip("shrunk away") };
    let names: Vec<String> = cols.iter().map(|x| t(x, "n")).collect();
    let mut u = names.clone();
    u.sort();
    u.dedup();
    let all = [STR, INT, BOOL, DATE, ANY].concat();
    let known = |x: &J| match x.get("o") {
        Some(J::Arr(o)) => o.iter().all(|x| matches!(x, J::Str(s) if NOT_NULL.contains(&s.as_str()) || OPTS.contains(&s.as_str()))),
        o => o.is_none(),
    };
    let whole = cols.iter().all(|x| known(x) && all.contains(&t(x, "t").as_str()) && (t(x, "q") == "\"" || NAMES.contains(&t(x, "n").as_str())) && !t(x, "n").is_empty() && t(x, "n") != "__proto__");
    if u.len() < names.len() || cols.is_empty() || !whole {
        return Pass::skip("shrunk away");
    }
    let mut ch = Ch::new(c.nums.first().copied().unwrap_or(0));
    let text = script(c, &mut ch);
    let q = c.clone().opt("input_mode", "sql");
    let not_null = |x: &J| matches!(x.get("o"), Some(J::Arr(o)) if o.iter().any(|x| matches!(x, J::Str(s) if NOT_NULL.contains(&s.as_str()))));
    let out = sut::generate_text(&q.with_mode("shape"), &text).map_err(|e| format!("rejected: {e}\n--- script\n{text}"))?;
    let got = json::parse(&out).map_err(|e| format!("shape output is not JSON: {e}"))?;
    let want = J::Obj(
        cols.iter()
            .map(|x| {
                let (s, _) = class(kind(x));
                let s2 = J::Str(s.into());
                let v = if not_null(x) || s == "any" { s2 } else { J::Obj(vec![("__type__".into(), J::Str("nullable".into())), ("item".into(), s2)]) };
                (t(x, "n"), v)
            })
            .collect(),
    );
    if got != want {
        return Err(format!("columns differ\n want {}\n got  {}\n--- script\n{text}", want.text(), got.text()));
    }
    let mut tags = vec!["shape"];
    // the same in the other output modes: as for rows with such values (a nullable Date cannot be told that way)
    if cols.iter().all(|x| kind(x) != "d" || not_null(x) && t(x, "n") != "-") {
        let row = |second: bool| {
            J::Obj(
                cols.iter()
                    .map(|x| {
                        let (s, v) = class(kind(x));
                        let v = match (s, second) {
                            ("any", false) => J::Num("1".into()),
                            ("any", true) => J::Str("x".into()),
                            (_, true) if !not_null(x) => J::Null,
                            _ => v,
                        };
                        (t(x, "n"), v)
                    })
                    .collect(),
            )
        };
        let mut r = c.clone();
        r.opts.insert("unwrap".into(), "/-".into());
        r.sample = J::Arr(vec![row(false), row(true)]);
        r.hints = cols.iter().filter(|x| kind(x) == "d").map(|x| (format!("/{}", model::escape_token(&t(x, "n"))), "Date".to_string())).collect();
        let a = sut::generate_text(&q, &text).map_err(|e| format!("rejected in mode {}: {e}", c.get("output_mode")))?;
        let b = sut::generate(&r).map_err(|e| format!("rows rejected: {e}"))?;
        if a != b {
            return Err(format!("code differs from that for rows of the table\n--- script\n{text}\n--- code\n{a}\n--- for rows {}\n{b}", r.sample.text()));
        }
        tags.push("modes");
    }
    for x in cols {
        tags.push(match kind(x) {
            "s" => "string",
            "i" => "integer",
            "b" => "boolean",
            "d" => "date",
            _ => "unknown",
        });
        tags.push(if not_null(x) { "not-null" } else { "nullable" });
        if !t(x, "q").is_empty() {
            tags.push("quoted");
        }
    }
    tags.sort();
    tags.dedup();
    Ok(Pass::of(tags, cols.len() > 1))
}
fn gen_table(r: &mut TestRng) -> Case {
    let mut r = R(r);
    let wide = r.pct(1);
    let n = if wide { r.range(9, 300) } else { r.range(1, 8) };
    let mut cols = vec![];
    let mut seen: Vec<String> = vec![];
    for i in 0..n {
        let (name, q) = match r.below(10) {
            0..=8 if wide => (format!("{}{i}", r.pick(NAMES)), "\""),
            0..=5 => (r.pick(NAMES).to_string(), ""),
            6..=7 => (r.pick(QUOTED).to_string(), "\""),
            8 => (r.pick(NAMES).to_string(), "\""),
            _ => (gen::key(&mut r, &Cfg::default()), "\""),
        };
        if name.is_empty() || name.contains('\0') || name.ends_with('?') || name.contains("__type__") || seen.contains(&name) {
            continue;
        }
        seen.push(name.clone());
        let v = *r.pick(&[STR, INT, BOOL, DATE, ANY, STR, INT]);
        let mut o: Vec<J> = (0..*r.pick(&[0, 0, 0, 1, 1, 2])).map(|_| J::Str(r.pick(OPTS).to_string())).collect();
        if r.pct(50) {
            let i = r.below(o.len() + 1);
            o.retain(|x| *x != J::Str("NULL".into()));
            o.insert(i.min(o.len()), J::Str(r.pick(NOT_NULL).to_string()));
        }
        cols.push(J::Obj(vec![
            ("n".into(), J::Str(name)),
            ("t".into(), J::Str(r.pick(v).to_string())),
            ("o".into(), J::Arr(o)),
            ("q".into(), J::Str(q.into())),
        ]));
    }
    let mut c = Case::new(&gen::name(&mut r), J::Arr(cols)).opt("output_mode", *r.pick(sut::MODES));
    if r.pct(40) {
        c = c.opt("import_style", r.pick(sut::STYLES));
    }
    if r.pct(30) {
        c = c.opt("property_name_format", r.pick(sut::FORMATS));
    }
    c.nums = vec![r.below(1 << 30) as i64];
    c
}
/// Scripts that are certainly wrong, or create no table.
fn gen_bad(r: &mut TestRng) -> Case {
    let mut c = loop {
        let c = gen_table(r);
        if matches!(&c.sample, J::Arr(a) if !a.is_empty()) {
            break c;
        }
    };
    let mut r = R(r);
    let mut ch = Ch::new(r.below(1 << 30) as i64);
    let text = match r.below(8) {
        0 => r
            .pick(&[
                "", " ", ";", "-- nothing\n", "/* CREATE TABLE t (a INT) */", "SELECT 1", "DROP TABLE t", "CREATE VIEW v AS SELECT 1", "CREATE INDEX i ON t (a)", "INSERT INTO t VALUES ('CREATE TABLE t (a INT)')", "ALTER TABLE t ADD COLUMN a INT", "CREATE SCHEMA s",
            ])
            .to_string(),
        1 => r
            .pick(&[
                "CREATE TABL t (a INT)", "CREATE TABLE (a INT)", "CREATE TABLE t (a INT", "CREATE TABLE t (a INT,, b INT)", "CREATE TABLE t (, a INT)", "CREATE TABLE t (a INT b INT)", "CREATE TABLE t (a INT NOT)", "CREATE TABLE t (a INT))", "CREATE TABLE t (a INT) (",
                "CREATE TABLE t (a VARCHAR(10)", "CREATE TABLE t (a VARCHAR(x))", "CREATE TABLE t ('a' INT)", "CREATE TABLE t (a INT DEFAULT 'x)", "CREATE TABLE t (\"a INT)", "{\"a\": 1}", "[1, 2]", "hello", "CREATE TABLE t (a INT) /* ", "CREATE TABLE t (a INT PRIMARY)", "CREATE TABLE t (a INT CHECK)",
            ])
            .to_string(),
        2 => format!("{}; CREATE TABEL x (y INT);", script(&c, &mut ch).trim_end_matches("-- end")),
        3 => format!("SELEC 1; {}", script(&c, &mut ch)),
        4 => format!("CREATE TABLE t (a INT); {}", r.pick(&["FOO", "CREATE", "CREATE TABLE", "CREATE TABLE t (", "SELECT FROM WHERE", ")", "DROP", "INSERT INTO"])),
        5 => format!("CREATE TABLE t (a INT NOT NULL, b {}", r.pick(&["INT", "INT,", "", ",", "INT NOT NULL, PRIMARY KEY (", "ENUM(", "VARCHAR("])),
        6 => format!("SELECT 1; {}", r.pick(&["SELECT 2", "DROP TABLE x", "", "UPDATE t SET a = 1", "DELETE FROM t"])),
        _ => format!("CREATE TABLE t (a {}, b TEXT)", r.pick(&["INT NOT", "INT NULL NOT", "INT (", "1", "'x'", ", ", "INT DEFAULT", "INT REFERENCES", "INT UNIQUE UNIQUE KEY KEY (", "(INT)"])),
    };
    c.sample = J::Null;
    c.texts = vec![text];
    c.opt("_bad", "true")
}
pub fn c17() -> Prop {
    Prop {
        id: "C17",
        level: "exploration",
        rule: "CREATE TABLE statements composed of columns (bare and quoted names, 78 type spellings in five classes, column options with decoys), table constraints, comments, letter case and surrounding statements: the shape output must list exactly the columns in order with class and nullability, and the code in a random output mode must equal the code for two JSON rows with such values; plus scripts that do not parse or create no table, which must be errors; non-trivial = more than one column; distinct by hash of the case".into(),
        assumptions: vec!["column names are distinct; names ending in '?' or containing __type__ are left out (shape printer)".into(), "other output modes are not compared for nullable dates".into()],
        campaigns: vec![("tables", n(400_000, 6_000_000), Arc::new(gen_table)), ("bad", n(100_000, 2_000_000), Arc::new(gen_bad))],
        make: core::simple(check),
        max_shrink: 20_000,
        threads: 8,
        batch: None,
    }
}
