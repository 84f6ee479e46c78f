// For two.ungram: more than 256 kinds, all punctuation characters, keywords of all shapes, rules that are a single thing.
const TRIVIA: &[SK] = &[SK::Space];
const KEYWORDS: &[(&str, SK)] = &[("SELECT", SK::SelectKw), ("camelCase", SK::CamelcaseKw), ("async_await_2", SK::AsyncAwait2Kw), ("_x", SK::XKw), ("a1", SK::A1Kw), ("q", SK::QKw), ("__long__middle__name", SK::LongMiddleNameKw), ("type", SK::TypeKw), ("kw_000", SK::Kw000Kw), ("kw_001", SK::Kw001Kw), ("kw_002", SK::Kw002Kw), ("kw_003", SK::Kw003Kw), ("kw_004", SK::Kw004Kw), ("kw_005", SK::Kw005Kw), ("kw_006", SK::Kw006Kw), ("kw_007", SK::Kw007Kw), ("kw_008", SK::Kw008Kw), ("kw_009", SK::Kw009Kw), ("kw_010", SK::Kw010Kw), ("kw_011", SK::Kw011Kw), ("kw_012", SK::Kw012Kw), ("kw_013", SK::Kw013Kw), ("kw_014", SK::Kw014Kw), ("kw_015", SK::Kw015Kw), ("kw_016", SK::Kw016Kw), ("kw_017", SK::Kw017Kw), ("kw_018", SK::Kw018Kw), ("kw_019", SK::Kw019Kw), ("kw_020", SK::Kw020Kw), ("kw_021", SK::Kw021Kw), ("kw_022", SK::Kw022Kw), ("kw_023", SK::Kw023Kw), ("kw_024", SK::Kw024Kw), ("kw_025", SK::Kw025Kw), ("kw_026", SK::Kw026Kw), ("kw_027", SK::Kw027Kw), ("kw_028", SK::Kw028Kw), ("kw_029", SK::Kw029Kw), ("kw_030", SK::Kw030Kw), ("kw_031", SK::Kw031Kw), ("kw_032", SK::Kw032Kw), ("kw_033", SK::Kw033Kw), ("kw_034", SK::Kw034Kw), ("kw_035", SK::Kw035Kw), ("kw_036", SK::Kw036Kw), ("kw_037", SK::Kw037Kw), ("kw_038", SK::Kw038Kw), ("kw_039", SK::Kw039Kw), ("kw_040", SK::Kw040Kw), ("kw_041", SK::Kw041Kw), ("kw_042", SK::Kw042Kw), ("kw_043", SK::Kw043Kw), ("kw_044", SK::Kw044Kw), ("kw_045", SK::Kw045Kw), ("kw_046", SK::Kw046Kw), ("kw_047", SK::Kw047Kw), ("kw_048", SK::Kw048Kw), ("kw_049", SK::Kw049Kw), ("kw_050", SK::Kw050Kw), ("kw_051", SK::Kw051Kw), ("kw_052", SK::Kw052Kw), ("kw_053", SK::Kw053Kw), ("kw_054", SK::Kw054Kw), ("kw_055", SK::Kw055Kw), ("kw_056", SK::Kw056Kw), ("kw_057", SK::Kw057Kw), ("kw_058", SK::Kw058Kw), ("kw_059", SK::Kw059Kw), ("kw_060", SK::Kw060Kw), ("kw_061", SK::Kw061Kw), ("kw_062", SK::Kw062Kw), ("kw_063", SK::Kw063Kw), ("kw_064", SK::Kw064Kw), ("kw_065", SK::Kw065Kw), ("kw_066", SK::Kw066Kw), ("kw_067", SK::Kw067Kw), ("kw_068", SK::Kw068Kw), ("kw_069", SK::Kw069Kw), ("kw_070", SK::Kw070Kw), ("kw_071", SK::Kw071Kw), ("kw_072", SK::Kw072Kw), ("kw_073", SK::Kw073Kw), ("kw_074", SK::Kw074Kw), ("kw_075", SK::Kw075Kw), ("kw_076", SK::Kw076Kw), ("kw_077", SK::Kw077Kw), ("kw_078", SK::Kw078Kw), ("kw_079", SK::Kw079Kw), ("kw_080", SK::Kw080Kw), ("kw_081", SK::Kw081Kw), ("kw_082", SK::Kw082Kw), ("kw_083", SK::Kw083Kw), ("kw_084", SK::Kw084Kw), ("kw_085", SK::Kw085Kw), ("kw_086", SK::Kw086Kw), ("kw_087", SK::Kw087Kw), ("kw_088", SK::Kw088Kw), ("kw_089", SK::Kw089Kw), ("kw_090", SK::Kw090Kw), ("kw_091", SK::Kw091Kw), ("kw_092", SK::Kw092Kw), ("kw_093", SK::Kw093Kw), ("kw_094", SK::Kw094Kw), ("kw_095", SK::Kw095Kw), ("kw_096", SK::Kw096Kw), ("kw_097", SK::Kw097Kw), ("kw_098", SK::Kw098Kw), ("kw_099", SK::Kw099Kw), ("kw_100", SK::Kw100Kw), ("kw_101", SK::Kw101Kw), ("kw_102", SK::Kw102Kw), ("kw_103", SK::Kw103Kw), ("kw_104", SK::Kw104Kw), ("kw_105", SK::Kw105Kw), ("kw_106", SK::Kw106Kw), ("kw_107", SK::Kw107Kw), ("kw_108", SK::Kw108Kw), ("kw_109", SK::Kw109Kw), ("kw_110", SK::Kw110Kw), ("kw_111", SK::Kw111Kw), ("kw_112", SK::Kw112Kw), ("kw_113", SK::Kw113Kw), ("kw_114", SK::Kw114Kw), ("kw_115", SK::Kw115Kw), ("kw_116", SK::Kw116Kw), ("kw_117", SK::Kw117Kw), ("kw_118", SK::Kw118Kw), ("kw_119", SK::Kw119Kw), ("kw_120", SK::Kw120Kw), ("kw_121", SK::Kw121Kw), ("kw_122", SK::Kw122Kw), ("kw_123", SK::Kw123Kw), ("kw_124", SK::Kw124Kw), ("kw_125", SK::Kw125Kw), ("kw_126", SK::Kw126Kw), ("kw_127", SK::Kw127Kw), ("kw_128", SK::Kw128Kw), ("kw_129", SK::Kw129Kw), ("kw_130", SK::Kw130Kw), ("kw_131", SK::Kw131Kw), ("kw_132", SK::Kw132Kw), ("kw_133", SK::Kw133Kw), ("kw_134", SK::Kw134Kw), ("kw_135", SK::Kw135Kw), ("kw_136", SK::Kw136Kw), ("kw_137", SK::Kw137Kw), ("kw_138", SK::Kw138Kw), ("kw_139", SK::Kw139Kw), ("kw_140", SK::Kw140Kw), ("kw_141", SK::Kw141Kw), ("kw_142", SK::Kw142Kw), ("kw_143", SK::Kw143Kw), ("kw_144", SK::Kw144Kw), ("kw_145", SK::Kw145Kw), ("kw_146", SK::Kw146Kw), ("kw_147", SK::Kw147Kw), ("kw_148", SK::Kw148Kw), ("kw_149", SK::Kw149Kw), ("kw_150", SK::Kw150Kw), ("kw_151", SK::Kw151Kw), ("kw_152", SK::Kw152Kw), ("kw_153", SK::Kw153Kw), ("kw_154", SK::Kw154Kw), ("kw_155", SK::Kw155Kw), ("kw_156", SK::Kw156Kw), ("kw_157", SK::Kw157Kw), ("kw_158", SK::Kw158Kw), ("kw_159", SK::Kw159Kw), ("kw_160", SK::Kw160Kw), ("kw_161", SK::Kw161Kw), ("kw_162", SK::Kw162Kw), ("kw_163", SK::Kw163Kw), ("kw_164", SK::Kw164Kw), ("kw_165", SK::Kw165Kw), ("kw_166", SK::Kw166Kw), ("kw_167", SK::Kw167Kw), ("kw_168", SK::Kw168Kw), ("kw_169", SK::Kw169Kw), ("kw_170", SK::Kw170Kw), ("kw_171", SK::Kw171Kw), ("kw_172", SK::Kw172Kw), ("kw_173", SK::Kw173Kw), ("kw_174", SK::Kw174Kw), ("kw_175", SK::Kw175Kw), ("kw_176", SK::Kw176Kw), ("kw_177", SK::Kw177Kw), ("kw_178", SK::Kw178Kw), ("kw_179", SK::Kw179Kw), ("kw_180", SK::Kw180Kw), ("kw_181", SK::Kw181Kw), ("kw_182", SK::Kw182Kw), ("kw_183", SK::Kw183Kw), ("kw_184", SK::Kw184Kw), ("kw_185", SK::Kw185Kw), ("kw_186", SK::Kw186Kw), ("kw_187", SK::Kw187Kw), ("kw_188", SK::Kw188Kw), ("kw_189", SK::Kw189Kw), ("kw_190", SK::Kw190Kw), ("kw_191", SK::Kw191Kw), ("kw_192", SK::Kw192Kw), ("kw_193", SK::Kw193Kw), ("kw_194", SK::Kw194Kw), ("kw_195", SK::Kw195Kw), ("kw_196", SK::Kw196Kw), ("kw_197", SK::Kw197Kw), ("kw_198", SK::Kw198Kw), ("kw_199", SK::Kw199Kw)];
const PUNCTUATION: &[(&str, SK)] = &[("_", SK::Underscore), ("-", SK::Minus), (",", SK::Comma), (";", SK::Semicolon), (":", SK::Colon), ("!", SK::Bang), ("?", SK::Question), (".", SK::Dot), ("(", SK::LRound), (")", SK::RRound), ("[", SK::LSquare), ("]", SK::RSquare), ("{", SK::LCurly), ("}", SK::RCurly), ("*", SK::Star), ("/", SK::Slash), ("&", SK::And), ("#", SK::Hash), ("%", SK::Percent), ("^", SK::Carat), ("+", SK::Plus), ("<", SK::Lt), ("=", SK::Eq), (">", SK::Gt), ("|", SK::Bar), ("~", SK::Tilde), ("`", SK::Tick), ("$", SK::Dollar), ("@", SK::At), ("&&", SK::AndAnd), ("||", SK::BarBar), ("=>", SK::EqGt), (">=", SK::GtEq), (">>", SK::GtGt), (">>>", SK::GtGtGt), (">>>=", SK::GtGtGtEq), ("!==", SK::BangEqEq), (".....", SK::DotDotDotDotDot), ("?.", SK::QuestionDot), ("**", SK::StarStar), ("@@", SK::AtAt), ("#[", SK::HashLSquare), ("_%", SK::UnderscorePercent), ("~^", SK::TildeCarat), ("$(", SK::DollarLRound), ("/*", SK::SlashStar)];
const SPECIAL: &[(SK, &str)] = &[(SK::Word, "a word"), (SK::Number, "0-9"), (SK::Text, "")];
const DOCS: &[(SK, &str)] = &[(SK::Word, "letters"), (SK::Text, "\"quoted\""), (SK::TypeKw, "says\nmore"), (SK::GtGtGtEq, "unsigned"), (SK::Kw199Kw, "the last")];
const NODES: &[(SK, &str)] = &[(SK::Root, "Root"), (SK::First, "First"), (SK::Second, "Second"), (SK::Third, "Third"), (SK::Fourth, "Fourth"), (SK::Fifth, "Fifth"), (SK::Sixth, "Sixth"), (SK::Seventh, "Seventh"), (SK::Eighth, "Eighth"), (SK::All, "All"), (SK::Words, "Words"), (SK::Many, "Many")];
const ANY: &[SK] = &[SK::First, SK::Second];
const MARK: &[(SK, &str)] = &[(SK::Hash, "#"), (SK::AtAt, "@@"), (SK::Word, "Word"), (SK::TypeKw, "type")];
const ANY_WORD: &[(SK, &str)] = &[(SK::SelectKw, "SELECT"), (SK::CamelcaseKw, "camelCase"), (SK::AsyncAwait2Kw, "async_await_2"), (SK::XKw, "_x"), (SK::A1Kw, "a1"), (SK::QKw, "q"), (SK::Underscore, "_"), (SK::DotDotDotDotDot, ".....")];
/// The number of kinds.
const N: u64 = 1 + 208 + 46 + 3 + 12;

fn casts() {
  let k = any_kind();
  one::<Root>(k, &[SK::Root]);
  one::<First>(k, &[SK::First]);
  one::<Second>(k, &[SK::Second]);
  one::<Third>(k, &[SK::Third]);
  one::<Fourth>(k, &[SK::Fourth]);
  one::<Fifth>(k, &[SK::Fifth]);
  one::<Sixth>(k, &[SK::Sixth]);
  one::<Seventh>(k, &[SK::Seventh]);
  one::<Eighth>(k, &[SK::Eighth]);
  one::<All>(k, &[SK::All]);
  one::<Words>(k, &[SK::Words]);
  one::<Many>(k, &[SK::Many]);
  one::<Any>(k, ANY);
  let (root, _) = tree(k, 0, false);
  match Any::cast(root) { Some(Any::First(_)) => check(is(k, SK::First), "Y05|an alternative is that of the kind"), Some(Any::Second(_)) => check(is(k, SK::Second), "Y05|an alternative is that of the kind"), None => {} }
  trace(k.into());
}
fn token_alts() {
  let k = any_kind();
  let root = SyntaxNode::new_root(GreenNode::new(SK::Root.into(), [GreenToken::new(rowan::SyntaxKind(k), "t").into()]));
  let t = root.first_token().unwrap();
  match choose(2) {
    0 => token_alt!(t, k, Mark, MarkKind, MARK, [Hash AtAt Word TypeKw]),
    _ => token_alt!(t, k, AnyWord, AnyWordKind, ANY_WORD, [SelectKw CamelcaseKw AsyncAwait2Kw XKw A1Kw QKw Underscore DotDotDotDotDot]),
  }
  trace(k.into());
}

syn! { Root First Second Seventh Any }
tok! { Mark AnyWord }
fn fields(arg: usize) {
  let (which, deep, n) = (arg / 100, arg / 10 % 10 == 1, arg % 10);
  let (k, _) = NODES[which];
  let (root, c) = tree(raw(k), n, deep);
  let t = |s: SK| -> Vec<SyntaxToken> { c.iter().filter_map(|x| x.token(&[s])).collect() };
  let ts = |s: &[(SK, &str)]| -> Vec<SyntaxToken> { let v: Vec<SK> = s.iter().map(|x| x.0).collect(); c.iter().filter_map(|x| x.token(&v)).collect() };
  let n = |s: &[SK]| -> Vec<SyntaxNode> { c.iter().filter_map(|x| x.node(s)).collect() };
  match which {
    0 => { let x = Root::cast(root).unwrap(); opt(x.first(), 0, &n(&[SK::First])); check(format!("{x:?}") == format!("{:?}", x.syntax()) && x.clone().syntax() == x.syntax(), "Y07|the root is shown as its node"); }
    1 => { let x = First::cast(root).unwrap(); opt(x.word(), 0, &t(SK::Word)); }
    2 => { let x = Second::cast(root).unwrap(); rep(x.words(), &t(SK::Word)); }
    3 => { let x = Third::cast(root).unwrap(); opt(x.tail(), 0, &n(&[SK::Second])); }
    4 => { let x = Fourth::cast(root).unwrap(); opt(x.root(), 0, &n(&[SK::Root])); }
    5 => { let x = Fifth::cast(root).unwrap(); opt(x.mark(), 0, &ts(MARK)); }
    6 => {
      let x = Sixth::cast(root).unwrap();
      rep(x.marks(), &ts(MARK)); opt(x.any(), 0, &n(ANY)); opt(x.word(), 0, &t(SK::Word)); opt(x.a(), 1, &n(ANY)); opt(x.b(), 1, &ts(MARK)); opt(x.type_kw(), 0, &t(SK::TypeKw)); opt(x.camelcase_kw(), 0, &t(SK::CamelcaseKw)); opt(x.async_await2_kw(), 0, &t(SK::AsyncAwait2Kw));
    }
    7 => {
      let x = Seventh::cast(root).unwrap();
      opt(x.gt_gt_gt_eq(), 0, &t(SK::GtGtGtEq)); rep(x.gt_gt_gt_eqs(), &t(SK::GtGtGtEq)); opt(x.last(), 2, &t(SK::GtGtGtEq)); opt(x.again(), 0, &n(&[SK::Seventh])); rep(x.more(), &n(&[SK::Seventh])); opt(x.then(), 2, &n(&[SK::Seventh]));
    }
    8 => { let x = Eighth::cast(root).unwrap(); opt(x.number(), 0, &t(SK::Number)); rep(x.texts(), &t(SK::Text)); }
    9 => { let x = All::cast(root).unwrap(); opt(x.faa(), 0, &t(SK::Underscore)); opt(x.faj(), 0, &t(SK::RRound)); opt(x.fas(), 0, &t(SK::Percent)); opt(x.fbb(), 0, &t(SK::Dollar)); opt(x.fbk(), 0, &t(SK::BangEqEq)); opt(x.fbt(), 0, &t(SK::SlashStar)); }
    11 => {
      let x = Many::cast(root).unwrap();
      opt(x.f_a(), 0, &t(SK::Word)); opt(x.f_b(), 1, &t(SK::Word)); opt(x.f_c(), 2, &t(SK::Word)); opt(x.f_d(), 3, &t(SK::Word)); opt(x.f_e(), 4, &t(SK::Word)); opt(x.f_f(), 5, &t(SK::Word)); opt(x.f_g(), 6, &t(SK::Word)); opt(x.f_h(), 7, &t(SK::Word)); opt(x.f_i(), 8, &t(SK::Word)); opt(x.f_j(), 9, &t(SK::Word)); opt(x.f_k(), 10, &t(SK::Word)); opt(x.f_l(), 11, &t(SK::Word)); opt(x.f_m(), 12, &t(SK::Word));
      opt(x.n_a(), 0, &n(&[SK::First])); opt(x.n_b(), 1, &n(&[SK::First])); opt(x.n_c(), 2, &n(&[SK::First])); opt(x.n_d(), 3, &n(&[SK::First])); opt(x.n_e(), 4, &n(&[SK::First])); opt(x.n_f(), 5, &n(&[SK::First])); opt(x.n_g(), 6, &n(&[SK::First])); opt(x.n_h(), 7, &n(&[SK::First])); opt(x.n_i(), 8, &n(&[SK::First])); opt(x.n_j(), 9, &n(&[SK::First])); opt(x.n_k(), 10, &n(&[SK::First])); opt(x.n_l(), 11, &n(&[SK::First])); opt(x.n_m(), 12, &n(&[SK::First])); opt(x.n_n(), 13, &n(&[SK::First])); opt(x.n_o(), 14, &n(&[SK::First])); opt(x.n_p(), 15, &n(&[SK::First])); opt(x.n_q(), 16, &n(&[SK::First])); opt(x.n_r(), 17, &n(&[SK::First]));
      rep(x.ns(), &n(&[SK::First]));
    }
    _ => { let x = Words::cast(root).unwrap(); opt(x.select_kw(), 0, &t(SK::SelectKw)); opt(x.x_kw(), 0, &t(SK::XKw)); opt(x.a1_kw(), 0, &t(SK::A1Kw)); opt(x.q_kw(), 0, &t(SK::QKw)); opt(x.long_middle_name_kw(), 0, &t(SK::LongMiddleNameKw)); opt(x.kw000_kw(), 0, &t(SK::Kw000Kw)); opt(x.kw199_kw(), 0, &t(SK::Kw199Kw)); }
  }
}
