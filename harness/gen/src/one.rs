const TRIVIA: &[SK] = &[SK::Whitespace, SK::Comment];
const KEYWORDS: &[(&str, SK)] = &[("fn", SK::FnKw), ("let", SK::LetKw), ("use_all", SK::UseAllKw), ("and", SK::AndKw), ("true", SK::TrueKw), ("if", SK::IfKw), ("else", SK::ElseKw), ("end_IF", SK::EndIfKw)];
const PUNCTUATION: &[(&str, SK)] = &[("(", SK::LRound), (")", SK::RRound), ("->", SK::MinusGt), ("=", SK::Eq), (";", SK::Semicolon), ("::", SK::ColonColon), (":", SK::Colon), ("{", SK::LCurly), ("}", SK::RCurly),
  ("+", SK::Plus), ("-", SK::Minus), ("==", SK::EqEq), ("<", SK::Lt), ("<=", SK::LtEq), ("<<", SK::LtLt), (",", SK::Comma), (".", SK::Dot), ("..", SK::DotDot), ("...", SK::DotDotDot), ("..=", SK::DotDotEq)];
const SPECIAL: &[(SK, &str)] = &[(SK::Ident, "an identifier"), (SK::Int, "a number"), (SK::Str, "a string")];
const DOCS: &[(SK, &str)] = &[(SK::FnKw, "starts a function"), (SK::Ident, "a name"), (SK::DotDot, "from here to there"), (SK::LtLt, "shifts")];
const NODES: &[(SK, &str)] = &[(SK::Root, "Root"), (SK::FnItem, "FnItem"), (SK::LetItem, "LetItem"), (SK::UseItem, "UseItem"), (SK::Param, "Param"), (SK::Block, "Block"), (SK::BinExpr, "BinExpr"), (SK::ParenExpr, "ParenExpr"),
  (SK::LitExpr, "LitExpr"), (SK::IfExpr, "IfExpr"), (SK::Seps, "Seps"), (SK::Ops, "Ops")];
const ITEM: &[SK] = &[SK::FnItem, SK::LetItem, SK::UseItem];
const EXPR: &[SK] = &[SK::BinExpr, SK::ParenExpr, SK::LitExpr, SK::IfExpr];
const BIN_OP: &[(SK, &str)] = &[(SK::Plus, "+"), (SK::Minus, "-"), (SK::EqEq, "=="), (SK::Eq, "="), (SK::Lt, "<"), (SK::LtEq, "<="), (SK::LtLt, "<<"), (SK::AndKw, "and")];
const LIT: &[(SK, &str)] = &[(SK::Int, "Int"), (SK::Str, "Str"), (SK::TrueKw, "true")];
const DOTS: &[(SK, &str)] = &[(SK::Dot, "."), (SK::DotDot, ".."), (SK::DotDotDot, "..."), (SK::DotDotEq, "..=")];

/// The number of kinds.
const N: u64 = 2 + 8 + 20 + 3 + 12;

fn casts() {
  let k = any_kind();
  one::<Root>(k, &[SK::Root]);
  one::<FnItem>(k, &[SK::FnItem]);
  one::<LetItem>(k, &[SK::LetItem]);
  one::<UseItem>(k, &[SK::UseItem]);
  one::<Param>(k, &[SK::Param]);
  one::<Block>(k, &[SK::Block]);
  one::<BinExpr>(k, &[SK::BinExpr]);
  one::<ParenExpr>(k, &[SK::ParenExpr]);
  one::<LitExpr>(k, &[SK::LitExpr]);
  one::<IfExpr>(k, &[SK::IfExpr]);
  one::<Seps>(k, &[SK::Seps]);
  one::<Ops>(k, &[SK::Ops]);
  one::<Item>(k, ITEM);
  one::<Expr>(k, EXPR);
  let (root, _) = tree(k, 0, false);
  match Item::cast(root.clone()) { Some(Item::FnItem(_)) => check(is(k, SK::FnItem), "Y05|an alternative is that of the kind"), Some(Item::LetItem(_)) => check(is(k, SK::LetItem), "Y05|an alternative is that of the kind"), Some(Item::UseItem(_)) => check(is(k, SK::UseItem), "Y05|an alternative is that of the kind"), None => {} }
  match Expr::cast(root) {
    Some(Expr::BinExpr(_)) => check(is(k, SK::BinExpr), "Y05|an alternative is that of the kind"), Some(Expr::ParenExpr(_)) => check(is(k, SK::ParenExpr), "Y05|an alternative is that of the kind"),
    Some(Expr::LitExpr(_)) => check(is(k, SK::LitExpr), "Y05|an alternative is that of the kind"), Some(Expr::IfExpr(_)) => check(is(k, SK::IfExpr), "Y05|an alternative is that of the kind"), None => {}
  }
  trace(k.into());
}
fn token_alts() {
  let k = any_kind();
  let root = SyntaxNode::new_root(GreenNode::new(SK::Root.into(), [GreenToken::new(rowan::SyntaxKind(k), "t").into()]));
  let t = root.first_token().unwrap();
  match choose(3) {
    0 => token_alt!(t, k, BinOp, BinOpKind, BIN_OP, [Plus Minus EqEq Eq Lt LtEq LtLt AndKw]),
    1 => token_alt!(t, k, Lit, LitKind, LIT, [Int Str TrueKw]),
    _ => token_alt!(t, k, Dots, DotsKind, DOTS, [Dot DotDot DotDotDot DotDotEq]),
  }
  trace(k.into());
}

syn! { Item Expr Param Block }
tok! { BinOp Lit Dots }
fn fields(arg: usize) {
  let (which, deep, n) = (arg / 100, arg / 10 % 10 == 1, arg % 10);
  let (k, _) = NODES[which];
  let (root, c) = tree(raw(k), n, deep);
  let t = |s: SK| -> Vec<SyntaxToken> { c.iter().filter_map(|x| x.token(&[s])).collect() };
  let ts = |s: &[(SK, &str)]| -> Vec<SyntaxToken> { let v: Vec<SK> = s.iter().map(|x| x.0).collect(); c.iter().filter_map(|x| x.token(&v)).collect() };
  let n = |s: &[SK]| -> Vec<SyntaxNode> { c.iter().filter_map(|x| x.node(s)).collect() };
  match which {
    0 => { let x = Root::cast(root).unwrap(); rep(x.items(), &n(ITEM)); check(format!("{x:?}") == format!("{:?}", x.syntax()), "Y07|the root is shown as its node"); }
    1 => {
      let x = FnItem::cast(root).unwrap();
      opt(x.fn_kw(), 0, &t(SK::FnKw)); opt(x.name(), 0, &t(SK::Ident)); opt(x.l_round(), 0, &t(SK::LRound)); rep(x.params(), &n(&[SK::Param])); opt(x.r_round(), 0, &t(SK::RRound));
      opt(x.minus_gt(), 0, &t(SK::MinusGt)); opt(x.ret(), 0, &n(EXPR)); opt(x.block(), 0, &n(&[SK::Block]));
    }
    2 => { let x = LetItem::cast(root).unwrap(); opt(x.let_kw(), 0, &t(SK::LetKw)); opt(x.ident(), 0, &t(SK::Ident)); opt(x.eq(), 0, &t(SK::Eq)); opt(x.expr(), 0, &n(EXPR)); opt(x.semicolon(), 0, &t(SK::Semicolon)); }
    3 => { let x = UseItem::cast(root).unwrap(); opt(x.use_all_kw(), 0, &t(SK::UseAllKw)); rep(x.idents(), &t(SK::Ident)); opt(x.colon_colon(), 0, &t(SK::ColonColon)); opt(x.last(), 1, &t(SK::Ident)); }
    4 => { let x = Param::cast(root).unwrap(); opt(x.ident(), 0, &t(SK::Ident)); opt(x.colon(), 0, &t(SK::Colon)); opt(x.ty(), 1, &t(SK::Ident)); opt(x.expr(), 0, &n(EXPR)); }
    5 => { let x = Block::cast(root).unwrap(); opt(x.l_curly(), 0, &t(SK::LCurly)); rep(x.stmts(), &n(EXPR)); opt(x.r_curly(), 0, &t(SK::RCurly)); rep(x.items(), &n(ITEM)); }
    6 => { let x = BinExpr::cast(root).unwrap(); opt(x.lhs(), 0, &n(EXPR)); opt(x.bin_op(), 0, &ts(BIN_OP)); opt(x.rhs(), 1, &n(EXPR)); }
    7 => { let x = ParenExpr::cast(root).unwrap(); opt(x.l_round(), 0, &t(SK::LRound)); opt(x.expr(), 0, &n(EXPR)); opt(x.r_round(), 0, &t(SK::RRound)); opt(x.after(), 1, &t(SK::RRound)); }
    8 => { let x = LitExpr::cast(root).unwrap(); opt(x.lit(), 0, &ts(LIT)); }
    9 => { let x = IfExpr::cast(root).unwrap(); opt(x.if_kw(), 0, &t(SK::IfKw)); opt(x.cond(), 0, &n(EXPR)); opt(x.else_kw(), 0, &t(SK::ElseKw)); opt(x.then(), 1, &n(EXPR)); opt(x.els(), 2, &n(EXPR)); opt(x.end_if_kw(), 0, &t(SK::EndIfKw)); }
    10 => { let x = Seps::cast(root).unwrap(); opt(x.first(), 0, &ts(LIT)); rep(x.rest(), &ts(LIT)); rep(x.commas(), &t(SK::Comma)); opt(x.second(), 2, &ts(LIT)); opt(x.only(), 0, &n(&[SK::Block])); }
    _ => { let x = Ops::cast(root).unwrap(); opt(x.bin_op(), 0, &ts(BIN_OP)); opt(x.dots(), 0, &ts(DOTS)); opt(x.op(), 1, &ts(BIN_OP)); }
  }
}

