//! Stands in for exonum-build and protoc: turns a proto3 schema into the code rust-protobuf 2.x would generate,
//! as far as /repo uses it.

use std::fmt::Write as _;
use std::path::Path;

#[derive(Debug, Clone)]
struct Field {
    name: String,
    num: u32,
    ty: String,
    repeated: bool,
    oneof: Option<String>,
}
#[derive(Debug, Default)]
struct Msg {
    /// Path of nested names, joined with `_`.
    full: String,
    fields: Vec<Field>,
    oneofs: Vec<String>,
}
#[derive(Debug)]
struct Enum {
    full: String,
    values: Vec<(String, i32)>,
}

fn tokens(src: &str) -> Vec<String> {
    let mut out = Vec::new();
    for line in src.lines() {
        let line = line.split("//").next().unwrap();
        let mut cur = String::new();
        for c in line.chars() {
            if c.is_whitespace() || "{};=".contains(c) {
                if !cur.is_empty() {
                    out.push(std::mem::take(&mut cur));
                }
                if !c.is_whitespace() {
                    out.push(c.to_string());
                }
            } else {
                cur.push(c);
            }
        }
        if !cur.is_empty() {
            out.push(cur);
        }
    }
    out
}

struct Parser {
    t: Vec<String>,
    p: usize,
    msgs: Vec<Msg>,
    enums: Vec<Enum>,
}
impl Parser {
    fn next(&mut self) -> String {
        self.p += 1;
        self.t[self.p - 1].clone()
    }
    fn expect(&mut self, s: &str) {
        let n = self.next();
        assert_eq!(n, s, "schema: expected {s} before {:?}", self.t.get(self.p));
    }
    fn field(&mut self, first: String, oneof: Option<String>) -> Field {
        let (repeated, ty) = if first == "repeated" { (true, self.next()) } else { (false, first) };
        let name = self.next();
        self.expect("=");
        let num = self.next().parse().expect("field number");
        self.expect(";");
        Field { name, num, ty, repeated, oneof }
    }
    fn message(&mut self, prefix: &str) {
        let name = self.next();
        let full = if prefix.is_empty() { name } else { format!("{prefix}_{name}") };
        let mut m = Msg { full: full.clone(), ..Msg::default() };
        self.expect("{");
        loop {
            let t = self.next();
            match t.as_str() {
                "}" => break,
                ";" => {}
                "message" => self.message(&full),
                "enum" => self.enumeration(&full),
                "oneof" => {
                    let name = self.next();
                    self.expect("{");
                    loop {
                        let t = self.next();
                        if t == "}" {
                            break;
                        }
                        let f = self.field(t, Some(name.clone()));
                        m.fields.push(f);
                    }
                    m.oneofs.push(name);
                }
                _ => {
                    let f = self.field(t, None);
                    m.fields.push(f);
                }
            }
        }
        self.msgs.push(m);
    }
    fn enumeration(&mut self, prefix: &str) {
        let name = self.next();
        let full = if prefix.is_empty() { name } else { format!("{prefix}_{name}") };
        self.expect("{");
        let mut values = Vec::new();
        loop {
            let t = self.next();
            if t == "}" {
                break;
            }
            self.expect("=");
            values.push((t, self.next().parse().expect("enum value")));
            self.expect(";");
        }
        self.enums.push(Enum { full, values });
    }
    /// Name of the Rust type for a message or enum name used in the scope `scope`.
    fn resolve(&self, scope: &str, ty: &str) -> (String, bool) {
        let mut s = scope.to_string();
        loop {
            let cand = if s.is_empty() { ty.to_string() } else { format!("{s}_{ty}") };
            if self.enums.iter().any(|e| e.full == cand) {
                return (cand, true);
            }
            if self.msgs.iter().any(|m| m.full == cand) {
                return (cand, false);
            }
            if s.is_empty() {
                panic!("schema: unknown type {ty} in {scope}");
            }
            s = s.rfind('_').map(|i| s[..i].to_string()).unwrap_or_default();
        }
    }
}

enum Kind {
    /// Rust type, wire type, read expression, write function and conversion.
    Scalar { rust: &'static str, wire: u8, read: &'static str, write: &'static str },
    Bytes,
    Str,
    Message(String),
    Enum(String),
}

fn kind(p: &Parser, scope: &str, ty: &str) -> Kind {
    let s = |rust, wire, read, write| Kind::Scalar { rust, wire, read, write };
    match ty {
        "uint32" => s("u32", 0, "is.varint()? as u32", "os.varint(NUM, u64::from(*v))"),
        "uint64" => s("u64", 0, "is.varint()?", "os.varint(NUM, *v)"),
        "int32" => s("i32", 0, "is.varint()? as i32", "os.varint(NUM, i64::from(*v) as u64)"),
        "int64" => s("i64", 0, "is.varint()? as i64", "os.varint(NUM, *v as u64)"),
        "bool" => s("bool", 0, "is.varint()? != 0", "os.varint(NUM, u64::from(*v))"),
        "fixed32" => s("u32", 5, "is.fixed32()?", "os.fixed32(NUM, *v)"),
        "fixed64" => s("u64", 1, "is.fixed64()?", "os.fixed64(NUM, *v)"),
        "sfixed64" => s("i64", 1, "is.fixed64()? as i64", "os.fixed64(NUM, *v as u64)"),
        "float" => s("f32", 5, "f32::from_bits(is.fixed32()?)", "os.fixed32(NUM, v.to_bits())"),
        "double" => s("f64", 1, "f64::from_bits(is.fixed64()?)", "os.fixed64(NUM, v.to_bits())"),
        "bytes" => Kind::Bytes,
        "string" => Kind::Str,
        _ => {
            let (n, e) = p.resolve(scope, ty);
            if e { Kind::Enum(n) } else { Kind::Message(n) }
        }
    }
}

impl Kind {
    fn rust(&self) -> String {
        match self {
            Kind::Scalar { rust, .. } => (*rust).into(),
            Kind::Bytes => "Vec<u8>".into(),
            Kind::Str => "String".into(),
            Kind::Message(n) | Kind::Enum(n) => n.clone(),
        }
    }
    fn wire(&self) -> u8 {
        match self {
            Kind::Scalar { wire, .. } => *wire,
            Kind::Enum(_) => 0,
            _ => 2,
        }
    }
    /// Statement that writes `v` (a reference).
    fn write(&self, num: u32) -> String {
        match self {
            Kind::Scalar { write, .. } => write.replace("NUM", &num.to_string()),
            Kind::Bytes => format!("os.bytes({num}, v)"),
            Kind::Str => format!("os.bytes({num}, v.as_bytes())"),
            Kind::Message(_) => format!("os.message({num}, v)"),
            Kind::Enum(_) => format!("os.varint({num}, *v as i32 as i64 as u64)"),
        }
    }
    fn read(&self) -> String {
        match self {
            Kind::Scalar { read, .. } => (*read).into(),
            Kind::Bytes => "is.bytes()?".into(),
            Kind::Str => "is.string()?".into(),
            Kind::Message(_) => "is.message()?".into(),
            Kind::Enum(_) => unreachable!(),
        }
    }
}

fn ident(n: &str) -> String {
    match n {
        "type" | "match" | "ref" | "move" | "self" => format!("r#{n}"),
        _ => n.into(),
    }
}

fn generate(p: &Parser) -> String {
    let mut o = String::new();
    for e in &p.enums {
        let n = &e.full;
        writeln!(o, "#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]\npub enum {n} {{").unwrap();
        for (v, i) in &e.values {
            writeln!(o, "    {v} = {i},").unwrap();
        }
        writeln!(o, "}}\nimpl {n} {{\n    pub fn from_i32(v: i32) -> Option<{n}> {{ match v {{").unwrap();
        for (v, i) in &e.values {
            writeln!(o, "        {i} => Some({n}::{v}),").unwrap();
        }
        writeln!(o, "        _ => None }} }}\n}}\nimpl Default for {n} {{ fn default() -> Self {{ {n}::{} }} }}", e.values[0].0).unwrap();
    }
    for m in &p.msgs {
        let n = &m.full;
        for one in &m.oneofs {
            writeln!(o, "#[derive(Clone, PartialEq, Debug)]\npub enum {n}_oneof_{one} {{").unwrap();
            for f in m.fields.iter().filter(|f| f.oneof.as_ref() == Some(one)) {
                writeln!(o, "    {}({}),", f.name, kind(p, n, &f.ty).rust()).unwrap();
            }
            writeln!(o, "}}").unwrap();
        }
        writeln!(o, "#[derive(Clone, PartialEq, Debug, Default)]\npub struct {n} {{").unwrap();
        for f in m.fields.iter().filter(|f| f.oneof.is_none()) {
            let k = kind(p, n, &f.ty);
            let r = k.rust();
            let t = match (&k, f.repeated) {
                (Kind::Message(_) | Kind::Str, true) => format!("::protobuf::RepeatedField<{r}>"),
                (_, true) => format!("Vec<{r}>"),
                (Kind::Message(_), false) => format!("::protobuf::SingularPtrField<{r}>"),
                _ => r,
            };
            writeln!(o, "    pub {}: {t},", ident(&f.name)).unwrap();
        }
        for one in &m.oneofs {
            writeln!(o, "    pub {one}: Option<{n}_oneof_{one}>,").unwrap();
        }
        writeln!(o, "    pub unknown_fields: ::protobuf::UnknownFields,\n}}\nimpl {n} {{\n    pub fn new() -> {n} {{ Default::default() }}").unwrap();
        for f in &m.fields {
            let k = kind(p, n, &f.ty);
            let r = k.rust();
            let id = ident(&f.name);
            let nm = &f.name;
            if let Some(one) = &f.oneof {
                let e = format!("{n}_oneof_{one}::{nm}");
                writeln!(o, "    pub fn has_{nm}(&self) -> bool {{ matches!(self.{one}, Some({e}(_))) }}").unwrap();
                writeln!(o, "    pub fn set_{nm}(&mut self, v: {r}) {{ self.{one} = Some({e}(v)); }}").unwrap();
                match &k {
                    Kind::Scalar { .. } | Kind::Enum(_) => {
                        writeln!(o, "    pub fn get_{nm}(&self) -> {r} {{ match self.{one} {{ Some({e}(v)) => v, _ => Default::default() }} }}").unwrap()
                    }
                    Kind::Bytes => writeln!(o, "    pub fn get_{nm}(&self) -> &[u8] {{ match self.{one} {{ Some({e}(ref v)) => v, _ => &[] }} }}").unwrap(),
                    Kind::Str => writeln!(o, "    pub fn get_{nm}(&self) -> &str {{ match self.{one} {{ Some({e}(ref v)) => v, _ => \"\" }} }}").unwrap(),
                    Kind::Message(_) => writeln!(
                        o,
                        "    pub fn get_{nm}(&self) -> &{r} {{ static D: ::std::sync::OnceLock<{r}> = ::std::sync::OnceLock::new(); match self.{one} {{ Some({e}(ref v)) => v, _ => D.get_or_init(Default::default) }} }}"
                    )
                    .unwrap(),
                }
                writeln!(o, "    pub fn take_{nm}(&mut self) -> {r} {{ if self.has_{nm}() {{ match self.{one}.take() {{ Some({e}(v)) => v, _ => unreachable!() }} }} else {{ Default::default() }} }}").unwrap();
                continue;
            }
            if f.repeated {
                let v = if matches!(k, Kind::Message(_) | Kind::Str) { format!("::protobuf::RepeatedField<{r}>") } else { format!("Vec<{r}>") };
                writeln!(o, "    pub fn get_{nm}(&self) -> &[{r}] {{ &self.{id} }}").unwrap();
                writeln!(o, "    pub fn set_{nm}(&mut self, v: {v}) {{ self.{id} = v; }}").unwrap();
                writeln!(o, "    pub fn mut_{nm}(&mut self) -> &mut {v} {{ &mut self.{id} }}").unwrap();
                writeln!(o, "    pub fn take_{nm}(&mut self) -> {v} {{ ::std::mem::take(&mut self.{id}) }}").unwrap();
                continue;
            }
            match &k {
                Kind::Scalar { .. } | Kind::Enum(_) => {
                    writeln!(o, "    pub fn get_{nm}(&self) -> {r} {{ self.{id} }}").unwrap();
                    writeln!(o, "    pub fn set_{nm}(&mut self, v: {r}) {{ self.{id} = v; }}").unwrap();
                }
                Kind::Bytes | Kind::Str => {
                    let b = if matches!(k, Kind::Bytes) { "[u8]" } else { "str" };
                    writeln!(o, "    pub fn get_{nm}(&self) -> &{b} {{ &self.{id} }}").unwrap();
                    writeln!(o, "    pub fn set_{nm}(&mut self, v: {r}) {{ self.{id} = v; }}").unwrap();
                    writeln!(o, "    pub fn mut_{nm}(&mut self) -> &mut {r} {{ &mut self.{id} }}").unwrap();
                    writeln!(o, "    pub fn take_{nm}(&mut self) -> {r} {{ ::std::mem::take(&mut self.{id}) }}").unwrap();
                }
                Kind::Message(_) => {
                    writeln!(o, "    pub fn get_{nm}(&self) -> &{r} {{ static D: ::std::sync::OnceLock<{r}> = ::std::sync::OnceLock::new(); match self.{id}.as_ref() {{ Some(v) => v, None => D.get_or_init(Default::default) }} }}").unwrap();
                    writeln!(o, "    pub fn has_{nm}(&self) -> bool {{ self.{id}.is_some() }}").unwrap();
                    writeln!(o, "    pub fn clear_{nm}(&mut self) {{ self.{id}.clear() }}").unwrap();
                    writeln!(o, "    pub fn set_{nm}(&mut self, v: {r}) {{ self.{id} = ::protobuf::SingularPtrField::some(v); }}").unwrap();
                    writeln!(o, "    pub fn mut_{nm}(&mut self) -> &mut {r} {{ self.{id}.get_or_default() }}").unwrap();
                    writeln!(o, "    pub fn take_{nm}(&mut self) -> {r} {{ self.{id}.take().unwrap_or_default() }}").unwrap();
                }
            }
        }
        writeln!(o, "}}\nimpl ::protobuf::Message for {n} {{\n    fn new() -> {n} {{ Default::default() }}").unwrap();
        writeln!(o, "    fn merge_from(&mut self, is: &mut ::protobuf::CodedInputStream<'_>) -> ::protobuf::ProtobufResult<()> {{").unwrap();
        writeln!(o, "        while !is.eof() {{ let (num, wire) = is.tag()?; match num {{").unwrap();
        for f in &m.fields {
            let k = kind(p, n, &f.ty);
            let id = ident(&f.name);
            let w = k.wire();
            let body = if let Kind::Enum(en) = &k {
                let set = if f.repeated { format!("self.{id}.push(e)") } else { format!("self.{id} = e") };
                format!("let raw = is.varint()?; match {en}::from_i32(raw as i32) {{ Some(e) => {set}, None => {{ let mut t = ::protobuf::CodedOutputStream::default(); t.varint({}, raw); self.unknown_fields.0.extend(t.0); }} }}", f.num)
            } else if let Some(one) = &f.oneof {
                format!("let v = {}; self.{one} = Some({n}_oneof_{one}::{}(v));", k.read(), f.name)
            } else if f.repeated {
                format!("let v = {}; self.{id}.push(v);", k.read())
            } else if matches!(k, Kind::Message(_)) {
                format!("is.merge(self.{id}.get_or_default())?;")
            } else {
                format!("self.{id} = {};", k.read())
            };
            let packed = if f.repeated && w != 2 { panic!("schema: packed fields are not supported") } else { "" };
            writeln!(o, "            {} => {{ if wire != {w} {{ return ::protobuf::unexpected_wire_type(); }} {packed}{body} }}", f.num).unwrap();
        }
        writeln!(o, "            _ => is.unknown(num, wire, &mut self.unknown_fields)?,\n        }} }}\n        Ok(())\n    }}").unwrap();
        writeln!(o, "    fn write(&self, os: &mut ::protobuf::CodedOutputStream) {{").unwrap();
        for f in m.fields.iter().filter(|f| f.oneof.is_none()) {
            let k = kind(p, n, &f.ty);
            let id = ident(&f.name);
            let w = k.write(f.num);
            if f.repeated {
                writeln!(o, "        for v in self.{id}.iter() {{ {w}; }}").unwrap();
                continue;
            }
            match &k {
                Kind::Message(_) => writeln!(o, "        if let Some(v) = self.{id}.as_ref() {{ {w}; }}").unwrap(),
                Kind::Bytes | Kind::Str => writeln!(o, "        if !self.{id}.is_empty() {{ let v = &self.{id}; {w}; }}").unwrap(),
                _ => writeln!(o, "        if self.{id} != <{}>::default() {{ let v = &self.{id}; {w}; }}", k.rust()).unwrap(),
            }
        }
        for one in &m.oneofs {
            writeln!(o, "        if let Some(x) = &self.{one} {{ match x {{").unwrap();
            for f in m.fields.iter().filter(|f| f.oneof.as_ref() == Some(one)) {
                writeln!(o, "            {n}_oneof_{one}::{}(v) => {{ {}; }}", f.name, kind(p, n, &f.ty).write(f.num)).unwrap();
            }
            writeln!(o, "        }} }}").unwrap();
        }
        writeln!(o, "        os.0.extend_from_slice(&self.unknown_fields.0);\n    }}\n}}").unwrap();
    }
    o
}

/// Generates `mod_name` in OUT_DIR from the .proto files of `dir`: one module per file.
pub fn protobuf_generate<const N: usize>(dir: &str, _includes: [&str; N], mod_name: &str) {
    let out = std::env::var("OUT_DIR").expect("OUT_DIR");
    let mut files: Vec<_> = std::fs::read_dir(dir)
        .expect("schema directory")
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().is_some_and(|e| e == "proto"))
        .collect();
    files.sort();
    let mut code = String::new();
    for f in files {
        let src = std::fs::read_to_string(&f).expect("schema");
        let mut p = Parser { t: tokens(&src), p: 0, msgs: vec![], enums: vec![] };
        while p.p < p.t.len() {
            match p.next().as_str() {
                "message" => p.message(""),
                "enum" => p.enumeration(""),
                _ => {
                    while p.next() != ";" {}
                }
            }
        }
        let stem = f.file_stem().unwrap().to_string_lossy().to_string();
        code.push_str(&format!(
            "#[allow(non_camel_case_types, non_snake_case, dead_code, clippy::all)]\npub mod {stem} {{\n{}\n}}\n",
            generate(&p)
        ));
    }
    std::fs::write(Path::new(&out).join(mod_name), code).expect("generated code");
}
