//! The crate without its optional feature

use {
    crate::{
        engine::*,
        ensure,
        ensure_eq,
        gen::*,
        plain::*,
        worker::plain_answer,
    },
    proptest::{
        collection::vec,
        prelude::*,
    },
};

fn req(tier: Tier) -> BoxedStrategy<Req> {
    let op = prop_oneof![
        1 => any::<u8>().prop_map(SkinOp::Fg),
        1 => any::<u8>().prop_map(SkinOp::Bg),
        1 => any::<u8>().prop_map(SkinOp::HeadersFg),
        1 => any::<u8>().prop_map(SkinOp::HeadersBg),
        1 => any::<u8>().prop_map(SkinOp::GlobalBg),
        1 => (any::<u8>(), 0..5u8).prop_map(|(c, w)| SkinOp::Blend(c, f32::from(w) / 4.0)),
        1 => Just(SkinOp::Ascii),
    ];
    let skin = (
        prop_oneof![3 => 0..4u8, 4 => Just(4u8)],
        skin(),
        any::<bool>(),
        prop_oneof![1 => Just(Vec::new()), 1 => vec(op, 1..4)],
    );
    let dims = (
        prop_oneof![1 => Just(None), 6 => width(3).prop_map(Some)],
        (0..6u16, 0..6u16, 4..50u16, 1..12u16),
        prop_oneof![2 => Just(0usize), 1 => 0..20usize],
        0..4u8,
    );
    (
        prop_oneof![2 => doc(tier, tier.pick(6, 12)), 1 => line_md(), 1 => wild_string(60)],
        prop_oneof![4 => inline_md(4), 1 => wild_string(20)],
        skin,
        dims,
    )
        .prop_map(|(md, inline, (start, spec, block_indent, ops), (width, area, scroll, align))| Req {
            start,
            json: if start < 4 { String::new() } else { serde_json::to_string(&spec.build()).unwrap_or_default() },
            block_indent,
            ops,
            md,
            inline: inline.replace('\n', " "),
            width,
            area,
            scroll,
            align,
        })
        .boxed()
}

fn check(case: &Req) -> CheckResult {
    let mut info = Info::new();
    let expected = guarded_answer(case);
    let got = plain_answer(case);
    match (expected, got) {
        (Ok(expected), Ok(got)) => {
            ensure_eq!(got.len(), expected.len(), "number of renderings");
            for ((what, e), (_, g)) in expected.iter().zip(&got) {
                ensure!(g == e, "without the special-renders feature, the {what} is {g:?} instead of {e:?}");
            }
            info.hit(expected[1].1.contains('\u{1b}'), "styled");
        }
        (Err(e), Err(g)) => {
            ensure_eq!(g, e, "error without the feature");
            info.class(true, "error");
        }
        (e, g) => return Err(format!("without the special-renders feature: {g:?} instead of {e:?}")),
    }
    info.class(!case.ops.is_empty(), "changed skin");
    info.class(case.start == 4, "custom skin");
    Ok(info)
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C33",
        rule: "the rendering of the text has styles",
        assumptions: &["no special chars, which are what the feature adds", "the skins are the standard ones, or read from their serialization, then changed"],
        max_threads: 8,
        parts: vec![part("features", 40_000, 600_000, req, check)],
    }]
}
