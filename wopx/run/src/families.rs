//! The bounded families of sources and texts.

fn env(k: &str) -> Option<Vec<String>> {
    std::env::var(k).ok().map(|v| v.split('~').map(str::to_string).collect())
}

/// Sources in letters (see `src::LETTERS`), with the bound of free ones.
pub fn sources(prop: &str, thorough: bool) -> Vec<(String, usize)> {
    if let Some(v) = env("WOPX_SRC") {
        let n = std::env::var("WOPX_N").map_or(7, |n| n.parse().unwrap());
        return v.into_iter().map(|t| (t, n)).collect();
    }
    // the slow ones first
    let mut v: Vec<(String, usize)> = vec![];
    let mut add = |s: &str| v.push((s.to_string(), 0));
    // an item list, its first token split over the jobs
    let first = ["|", "(", ")", ":", "o", "&", "i", "s", "P"];
    let rest = if thorough { ",,,,,,," } else { ",,,,," };
    for f in first {
        add(&format!("i:i={f}{rest}c;"));
    }
    if thorough {
        for t in [
            "i:i=i(,,,,,)o:&ic;",
            "i:i=i,,(,,,)o:ic;",
            "i:i=(i|s,,,,)o:ic;",
            "i:i=i:i(,,|,,):&ic;",
            "i:i=(i(,,,)o,,)o:ic;",
            "i:i=(i:i,,)o,,:ic|ic;",
            "i:i=ic|,,,,,c;",
            "i:i=......c;",
            "u......;i:i=ic;",
            "a......;i:i=ic;",
            "i......=ic;",
            "i:i=ic;......",
            "i:i=i.i.i.i.c;",
            "aIi;aSi;aIi;I:i=Ic;I:i=Sc;",
            "aIi;I:i=Ic;I:i=Ic;I:i=Sc;",
        ] {
            add(t);
        }
    }
    for t in [
        "i:i=i(,,,)o:&ic;",
        "i:i=i,,(,,)o:ic;",
        "i:i=(i|s,,)o:ic;",
        "i:i=i:i(,|,):&ic;",
        "i:i=(i(,,)o)o:ic;",
        "i:i=(i:i,,)o:ic|ic;",
        "i:i=ic|,,,,c;",
        "i:i=....c;",
        "i:i=i:o&i.o:&i.oc;",
        "u....;i:i=ic;",
        "a....;i:i=ic;",
        "i....=ic;",
        "i:i=ic;....",
        "....i:i=ic;",
    ] {
        add(t);
    }
    // orders of declarations
    let kinds = ["uI;", "aIi;", "aSi;", "I:i=ISc;"];
    let mut orders = vec![String::new()];
    for _ in 0..if thorough { 4 } else { 3 } {
        orders = orders.iter().flat_map(|o| kinds.iter().map(move |k| format!("{o}{k}"))).collect();
    }
    for t in &orders {
        add(t);
    }
    // symbols and aliases out of two names
    for f in ["II", "(I", "Io", "I:"] {
        add(&format!("aIi;i:i={f}{}c;", if thorough { "NNNN" } else { "NNN" }));
    }
    add("aSi;i:i=SNN(SN)o:ic;");
    add("aIi;i:i=Io:iI:&iS(IoSo)oc;");
    add("i:i=(i:I|i:I)oi:I(i:Ii:I|i:Io)c;");
    add("i:i=(i:iI|(i:I|i)o:i)oic;");
    // long lists
    for t in ["i:i=xxxxxxxxc;", "i:i=ic|xc|xc|xc|xc|xc;", "i:i=(i|x|x|x|x|x)c;", "i:i=(ixixixxizixzizi)c;", "i:i=xyxyxyxyxyc;", "i:i=(i(i(x(xoz(i|s):i)z(x):i)zi)oo:i)c;", "iPiPiPi:iPiPiPi=iPiPiPisiPiPic;uiPiPiPiPiPi;", "ui;ui;aii;ui;asi;i:i=ic;aii;ui;i:i=sc;aii;i:i=ixc;ui;"] {
        add(t);
    }
    if thorough {
        for t in ["i:i=xxxxxxxxxxxxc;", "i:i=xc|xc|xc|xc|xc|xc|xc|xc|xc;", "i:i=(izxzxzxzxzxzizi)o:ic;", "i:i=xyxyxyxyxyxyxyc;", "i:i=x:ixo:ixo:&ixo:ix:&ixoxo:ic;"] {
            add(t);
        }
    }
    // imports
    for t in ["u...;i:i=ic;", "u.....;i:i=ic;", "u...;", "uiPiP.;u..."] {
        add(t);
    }
    // the same name or another
    for t in ["aIi;aIi;I:i=Ic;I:i=Ic;", "aSi;aIi;i:i=S:i(I|S)o:&ic;", "aSi;aSi;aIi;I:i=SSc;", "I:i=Ic;I:i=Ic;I:i=Ic;", "i:i=I:I(S:I)o:Ic;", "uIPI;uIPI;aIi;I:i=IPIc|Ic;"] {
        add(t);
    }
    let n = match (prop, thorough) {
        ("C20", true) => 11,
        ("C20", false) => 9,
        ("C23", true) => 10,
        ("C23", false) => 8,
        (_, true) => 9,
        _ => 7,
    };
    v.insert(0, (String::new(), n));
    v
}

/// Texts; `?` is a hole.
pub fn texts(thorough: bool) -> Vec<String> {
    if let Some(v) = env("WOPX_SRC") {
        return v;
    }
    let mut v: Vec<String> = (0..=if thorough { 9 } else { 7 }).rev().map(|n| "?".repeat(n)).collect();
    let mut add = |v2: &[&str]| v.extend(v2.iter().map(|s| s.to_string()));
    if thorough {
        add(&[
            "/*?????????",
            "/*aaaaaaaaaa????????aaaaaaaaaaaaaaaaaaaa*/?",
            "/*aaaaaaaaaaaaaaaa????????",
            "//????????",
            "//aaaaaaaaaaaa????????aaaaaaaaaaaaaaaaa",
            "            ????????     ",
            "                ???????",
            "->???????????",
            "->aaaaaaaaaa???????????aaaaaaaaaaaaaaa}%??",
            "->}????????????}%",
            "->?????}?????}%?",
            "\"???????????",
            "\"aaaaaaaaaaaaaa??????????aaaaaaaaaaaaaaaaa\"?",
            "/*é???→???*/?",
            "->é???→????𝄞????",
            "alias//????/",
            "use/*??*?",
        ]);
    }
    add(&[
        // words and the marks that end them
        "alia????", "alias???", "us????", "use???", "aliasuse??", "use alias?", "_?????",
        // longer than the blocks that the lexer reads at once
        "aaaaaaaaaaaa??????aaaaaaaaaaaaaaa",
        "aaaaaaaaaaaaaaaaaaaaaaaaaa?????",
        "                ????",
        "            ?????     ",
        "\"aaaaaaaaaaaaaa?????aaaaaaaaaaaaa\"??",
        "//aaaaaaaaaaaaaaaaa?????",
        "//aaaaaaaaaaaa?????aaaaaaaaaaaaaaaaa",
        "/*aaaaaaaaaaaaaaaa?????",
        "/*aaaaaaaaaa?????aaaaaaaaaaaaaaaaaaaa*/?",
        "/*aaaaaaa*aaaaaaaa???aaaaaaaaaaaaaaaaaaaa*/?",
        "->aaaaaaaaaaaaaaaa?????",
        "->aaaaaaaaaa?????aaaaaaaaaaaaaaaaaaaa}%??",
        "->aaaaaaaaaaaaaaaa?aaaaaaaaaaa?aaaaaaaaa??",
        // inside
        "\"????????", "\"\\????", "//??????", "/*??????", "/**?????", "/*?**???",
        "->????????", "->}???????}%", "->???}???}%??", "->{?}%??}%",
        // several bytes to a character
        "\"é????\"", "\"\\é????\"", "\"→\\𝄞???\"", "/*é????*/?", "//é→??𝄞?", "->é??→??𝄞??",
        // after what is skipped
        " /*?*/??", "//?\n??", "/*?*///?\n??", "\t\n\r ???",
    ]);
    v
}

fn owned(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

pub fn bounds(prop: &str, thorough: bool) -> Vec<String> {
    if prop == "C19" {
        return texts(thorough).iter().map(|t| format!("every text {t:?}, each ? any ASCII byte")).collect();
    }
    let mut v: Vec<String> = sources(prop, thorough)
        .iter()
        .map(|(t, n)| {
            if t.is_empty() {
                format!("every source of up to {n} tokens of any kind")
            } else {
                format!("every source {t} (a alias, u use, P ::, o optional, i identifier, s literal, c code block; '.' any kind, ',' any kind of an item list, I and S named p or q, N as ',' with identifiers p or q, x identifier or literal, y ? or identifier, z | or identifier)")
            }
        })
        .collect();
    if !matches!(prop, "C20" | "C23") {
        let n = wobs::templates::templates().len();
        v.push(format!("the code generated for {n} programs of /verif/wopx/obs/src/templates.rs, on every input of the lengths in gen.rs, tokens symbolic"));
    }
    v
}

pub fn functions(prop: &str) -> Vec<String> {
    match prop {
        "C19" => owned(&[
            "<wop::Sym as logos::Logos>::lex as the derive macro expands it from wop/src/lib.rs (all of its generated functions and tables)",
            "wop::lexer on one text of each path",
        ]),
        "C20" => owned(&[
            "wop::out::grammar (the notation's grammar), the tables and the parse of it on symbolic token kinds",
            "wop::builder::Builder: FromStr, dump_grammar, dump_reductor, wop::out::reduct_map on one text of each path of kinds (and of names)",
        ]),
        "C23" => owned(&[
            "wop::out::grammar and the grammar that Builder generates from wop/src/wop.grammar: their tables, and the parse of both on symbolic token kinds",
            "wop::out::reduct_map and the reduction functions generated from wop/src/wop.grammar on one text of each path of kinds",
        ]),
        _ => owned(&[
            "the text of dump_grammar and dump_reductor, compiled, executed by lrp on symbolic tokens",
            "wop::builder::Builder: FromStr, dump_grammar, dump_reductor, wop::out::reduct_map on one text of each path of kinds (and of names)",
            "wop::out::grammar, the tables and the parse of it on symbolic token kinds",
        ]),
    }
}

pub fn assumptions(prop: &str) -> Vec<String> {
    match prop {
        "C19" => owned(&["holes are ASCII; longer and non-ASCII bytes stand only where the texts have them"]),
        "C23" => owned(&["what the reduction functions do depends on the kinds of the tokens, not on the spelling of a name"]),
        "C20" => owned(&["what the builder does depends on the kinds of the tokens and on which names are equal, not on the spelling of a name"]),
        _ => owned(&[
            "what the builder does depends on the kinds of the tokens and on which names are equal, not on the spelling of a name",
            "no alias is bound twice in one choice of an alternative, and those of one name have one type",
            "programs whose grammar has LR(1) conflicts are left out of those whose generated code is run",
        ]),
    }
}
