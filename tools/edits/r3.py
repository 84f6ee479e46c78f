# edits that keep the behaviour: syntax-gen (what it generates is written differently)
import sys
R=sys.argv[1]+'/crates/'
def ed(f,*prs):
    s=open(R+f).read()
    for o,n in prs:
        assert s.count(o)==1,(f,s.count(o),o)
        s=s.replace(o,n)
    open(R+f,'w').write(s)
ed('syntax-gen/src/alt.rs',
('''  match rules.first().unwrap() {
    Rule::Node(_) => get_nodes(cx, &name, rules),
    Rule::Token(_) => {
      let ts = get_tokens(cx, &name, rules);
      token_alts.insert(name);
      ts
    }
    bad => panic!("bad alt rule {bad:?}"),
  }''','''  let ts = match &rules[0] {
    Rule::Node(_) => return get_nodes(cx, &name, rules),
    Rule::Token(_) => get_tokens(cx, &name, rules),
    bad => panic!("bad alt rule {bad:?}"),
  };
  token_alts.insert(name);
  ts'''),
('''  let mut defs = Vec::with_capacity(rules.len());
  let mut kinds = Vec::with_capacity(rules.len());
  let mut casts = Vec::with_capacity(rules.len());
  let mut syntaxes = Vec::with_capacity(rules.len());
  for rule in rules {
    let name = ident(&cx.grammar[unwrap_node(rule)].name);
    defs.push(quote! { #name(#name) });
    kinds.push(quote! { SK::#name });
    casts.push(quote! { SK::#name => Self::#name(#name(node)) });
    syntaxes.push(quote! { Self::#name(x) => x.syntax() });
  }''','''  let names: Vec<_> =
    rules.iter().map(|rule| ident(&cx.grammar[unwrap_node(rule)].name)).collect();
  let defs = names.iter().map(|name| quote! { #name(#name) });
  let kinds = names.iter().map(|name| quote! { SK::#name });
  let casts = names.iter().map(|name| quote! { SK::#name => Self::#name(#name(node)) });
  let syntaxes = names.iter().map(|name| quote! { Self::#name(x) => x.syntax() });'''),
('''        matches!(kind, #(#kinds)|*)
''','''        match kind {
          #(#kinds => true,)*
          _ => false,
        }
'''),
('''        let ret = match node.kind() {
          #(#casts ,)*
          _ => return None,
        };
        Some(ret)
      }

      fn syntax''','''        Some(match node.kind() {
          #(#casts ,)*
          _ => return None,
        })
      }

      fn syntax'''),
('''        let kind = match token.kind() {
          #(#casts ,)*
          _ => return Err(()),
        };
        Ok(Self { token, kind })''','''        match #name_kind::of(token.kind()) {
          Some(kind) => Ok(Self { token, kind }),
          None => Err(()),
        }'''),
('''    impl #name_kind {
''','''    impl #name_kind {
      fn of(kind: SK) -> Option<Self> {
        match kind {
          #(#casts ,)*
          _ => None,
        }
      }
'''),
('''    casts.push(quote! { SK::#name => #name_kind::#name });''','''    casts.push(quote! { SK::#name => Some(#name_kind::#name) });'''),
)
ed('syntax-gen/src/ast.rs',
('''      parent
        .syntax()
        .children_with_tokens()
        .filter_map(rowan::NodeOrToken::into_token)
        .filter(move |tok| tok.kind() == kind)''','''      all_tokens(parent).filter(move |tok| kind == tok.kind())'''),
('''      parent
        .syntax()
        .children_with_tokens()
        .filter_map(rowan::NodeOrToken::into_token)
        .filter_map(|x| x.try_into().ok())
    }
''','''      all_tokens(parent).filter_map(|x| x.try_into().ok())
    }

    #[allow(unused)]
    fn all_tokens<P>(parent: &P) -> impl Iterator<Item = SyntaxToken> + use<P>
    where
      P: AstNode<Language = #lang>,
    {
      parent.syntax().children_with_tokens().filter_map(|x| match x {
        rowan::NodeOrToken::Token(x) => Some(x),
        rowan::NodeOrToken::Node(_) => None,
      })
    }
'''),
)
ed('syntax-gen/src/kind.rs',
('''  let keywords = {
    let mut xs: Vec<_> = tokens
      .keywords
      .into_iter()
      .map(|(ug_tok, tok)| (grammar[ug_tok].name.as_str(), tok))
      .collect();
    xs.sort_unstable_by_key(|&(name, _)| (Reverse(name.len()), name));
    xs
  };''','''  let by_len = |m: fast_hash::FxHashMap<ungrammar::Token, crate::token::Token>| {
    let mut xs: Vec<_> =
      m.into_iter().map(|(ug_tok, tok)| (grammar[ug_tok].name.as_str(), tok)).collect();
    xs.sort_by(|(a, _), (b, _)| b.len().cmp(&a.len()).then_with(|| a.cmp(b)));
    xs
  };
  let keywords = by_len(tokens.keywords);'''),
('''  let punctuation = {
    let mut xs: Vec<_> = tokens
      .punctuation
      .into_iter()
      .map(|(ug_tok, tok)| (grammar[ug_tok].name.as_str(), tok))
      .collect();
    xs.sort_unstable_by_key(|&(name, _)| (Reverse(name.len()), name));
    xs
  };
  let punctuation_len = punctuation.len();''','''  let punctuation = by_len(tokens.punctuation);
  let punctuation_len = punctuation.len();'''),
('use std::cmp::Reverse;\n',''),
('''  let desc_arms = punctuation
    .iter()
    .chain(keywords.iter())
    .map(|(name, tok)| {
      let desc = tok.desc.clone().unwrap_or_else(|| format!("`{name}`"));
      let kind = tok.name_ident();
      quote! { Self::#kind => #desc }
    })
    .chain(special.iter().filter_map(|tok| {
      let kind = tok.name_ident();
      let desc = tok.desc.as_ref()?;
      Some(quote! { Self::#kind => #desc })
    }));''','''  let mut desc_arms = Vec::new();
  for (name, tok) in keywords.iter().chain(&punctuation) {
    let desc = match &tok.desc {
      Some(x) => x.clone(),
      None => ["`", *name, "`"].concat(),
    };
    let kind = tok.name_ident();
    desc_arms.push(quote! { Self::#kind => #desc });
  }
  for tok in &special {
    if let Some(desc) = &tok.desc {
      let kind = tok.name_ident();
      desc_arms.push(quote! { Self::#kind => #desc });
    }
  }'''),
('''      pub fn keyword(bs: &[u8]) -> Option<Self> {
        let ret = match bs {
          #(#keyword_arms ,)*
          _ => return None,
        };
        Some(ret)
      }''','''      pub fn keyword(bs: &[u8]) -> Option<Self> {
        match bs {
          #(#keyword_arms ,)*
          _ => None,
        }
      }'''),
('''    quote! { #bs => Self::#kind }''','''    quote! { #bs => Some(Self::#kind) }'''),
('''        match self.token_desc() {
          None => fmt::Debug::fmt(self, f),
          Some(s) => f.write_str(s),
        }''','''        if let Some(s) = self.token_desc() {
          return f.write_str(s);
        }
        fmt::Debug::fmt(self, f)'''),
('''        assert!(raw.0 <= SyntaxKind::#last_syntax_kind as u16);''','''        if raw.0 > SyntaxKind::#last_syntax_kind as u16 {
          panic!("not a kind: {}", raw.0);
        }'''),
)
ed('syntax-gen/src/seq.rs',
('''        Self::can_cast(node.kind()).then_some(Self(node))''','''        if node.kind() == SK::#name { Some(Self(node)) } else { None }'''),
('''      body = if idx == 0 {
        quote! { #base_body.next() }
      } else {
        quote! { #base_body.nth(#idx) }
      };''','''      body = quote! { #base_body.nth(#idx) };'''),
('''      Rule::Opt(r) => {
        assert!(modifier.is_regular(), "cannot make optional");
        modifier = Modifier::Optional;
        rule = r.as_ref();
      }
      Rule::Rep(r) => {
        assert!(modifier.is_regular(), "cannot make repeated");
        modifier = Modifier::Repeated;
        rule = r.as_ref();
      }''','''      Rule::Opt(r) | Rule::Rep(r) => {
        assert!(modifier.is_regular(), "cannot make optional or repeated");
        let is_rep = matches!(rule, Rule::Rep(_));
        modifier = if is_rep { Modifier::Repeated } else { Modifier::Optional };
        rule = r.as_ref();
      }'''),
('''  let entry = counts.entry(key).or_default();
  let ret = *entry;
  *entry += 1;
  ret''','''  match counts.get_mut(&key) {
    Some(n) => {
      *n += 1;
      *n - 1
    }
    None => {
      counts.insert(key, 1);
      0
    }
  }'''),
)
ed('syntax-gen/src/token.rs',
('''        kind = Kind::Punctuation;
        name = String::new();
        for c in orig_name.chars() {
          name.push_str(char_name::get(c));
        }''','''        kind = Kind::Punctuation;
        name = orig_name.chars().map(char_name::get).collect();'''),
('''      match kind {
        Kind::Punctuation => {
          assert!(punctuation.insert(token, tok).is_none());
        }
        Kind::Keyword => {
          assert!(keywords.insert(token, tok).is_none());
        }
        Kind::Special => {
          assert!(special.insert(token, tok).is_none());
        }
      }''','''      let map = match kind {
        Kind::Punctuation => &mut punctuation,
        Kind::Keyword => &mut keywords,
        Kind::Special => &mut special,
      };
      let old = map.insert(token, tok);
      assert!(old.is_none());'''),
('''    None
      .or_else(|| self.punctuation.get(&token))
      .or_else(|| self.keywords.get(&token))
      .or_else(|| self.special.get(&token))
      .unwrap_or_else(|| panic!("{token:?} does not have a name"))''','''    for map in [&self.special, &self.keywords, &self.punctuation] {
      if let Some(tok) = map.get(&token) {
        return tok;
      }
    }
    panic!("{token:?} does not have a name")'''),
)
ed('syntax-gen/src/lib.rs',
('''  // first process all the alts
  for node in cx.grammar.iter() {
    let data = &cx.grammar[node];
    let rules = match &data.rule {
      Rule::Alt(rules) => rules.as_slice(),
      _ => continue,
    };
    types.push(alt::get(&cx, &mut token_alts, token::ident(&data.name), rules));
  }''','''  // first process all the alts
  for data in cx.grammar.iter().map(|node| &cx.grammar[node]) {
    if let Rule::Alt(rules) = &data.rule {
      let name = token::ident(&data.name);
      types.push(alt::get(&cx, &mut token_alts, name, rules));
    }
  }'''),
('''    let name = token::ident(&data.name);
    node_syntax_kinds.push(name.clone());
    types.push(seq::get(&cx, &name, rules));''','''    let name = token::ident(&data.name);
    types.push(seq::get(&cx, &name, rules));
    node_syntax_kinds.push(name);'''),
)
