use std::collections::HashMap;
fn main() {
  let feature = |f: &str| std::env::var_os(format!("CARGO_FEATURE_{f}")).is_some();
  let file = if feature("TWO") { "two.ungram" } else if feature("THREE") { "three.ungram" } else { "lang.ungram" };
  println!("cargo::rerun-if-changed={file}");
  let grammar = std::fs::read_to_string(file).unwrap();
  let doc; let special; let trivia: &[&str];
  if feature("TWO") {
    doc = HashMap::from([("Word", "letters"), ("Text", "\"quoted\""), ("type", "says\nmore"), (">>>=", "unsigned"), ("kw_199", "the last"), ("nothing", "not in the grammar")]);
    special = HashMap::from([("Word", "a word"), ("Number", "0-9"), ("Text", ""), ("Other", "not in the grammar")]);
    trivia = &["Space"];
  } else if feature("THREE") {
    doc = HashMap::new();
    special = HashMap::from([("Word", "a word")]);
    trivia = &["Space"];
  } else {
    doc = HashMap::from([("fn", "starts a function"), ("Ident", "a name"), ("..", "from here to there"), ("<<", "shifts")]);
    special = HashMap::from([("Ident", "an identifier"), ("Int", "a number"), ("Str", "a string")]);
    trivia = &["Whitespace", "Comment"];
  }
  // what an earlier run left is not what this one generates
  for old in ["ast.rs", "kind.rs"] { let _ = std::fs::remove_file(std::path::Path::new(&std::env::var_os("OUT_DIR").unwrap()).join(old)); }
  syntax_gen::get(&syntax_gen::Options { lang: "Lang", trivia, grammar: &grammar, doc: &doc, special: &special, file: "build.rs of the harness" });
}
