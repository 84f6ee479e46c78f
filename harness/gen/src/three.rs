// For three.ungram: no keywords, no punctuation, no alternatives, nothing documented.
const TRIVIA: &[SK] = &[SK::Space];
const KEYWORDS: &[(&str, SK)] = &[];
const PUNCTUATION: &[(&str, SK)] = &[];
const SPECIAL: &[(SK, &str)] = &[(SK::Word, "a word")];
const DOCS: &[(SK, &str)] = &[];
const NODES: &[(SK, &str)] = &[(SK::Root, "Root")];
/// The number of kinds.
const N: u64 = 3;

fn casts() { one::<Root>(any_kind(), &[SK::Root]); }
fn token_alts() {}
syn! { Root }
tok! {}
fn fields(arg: usize) {
  let (root, c) = tree(raw(SK::Root), arg % 10, arg / 10 % 10 == 1);
  let x = Root::cast(root).unwrap();
  rep(x.words(), &c.iter().filter_map(|x| x.token(&[SK::Word])).collect::<Vec<_>>());
  opt(x.root(), 0, &c.iter().filter_map(|x| x.node(&[SK::Root])).collect::<Vec<_>>());
}
