//! What the typed tree says about every node: `[[node, what, [value..]]..]`, where a value is the number of an
//! element of the tree (preorder, from 1), a number or a text.

use crate::string;
use ludtwig_parser::syntax::typed::*;
use ludtwig_parser::syntax::untyped::{SyntaxElement, SyntaxNode, SyntaxNodeExt, SyntaxToken};
use std::collections::HashMap;

pub type Ids = HashMap<Vec<usize>, usize>;

/// Where an element stands below the root. (Elements themselves are no key: equal empty nodes at one place compare
/// as equal.)
pub fn place(e: &SyntaxElement) -> Vec<usize> {
    let mut path = vec![];
    let mut parent = match e {
        SyntaxElement::Node(n) => {
            path.push(n.index());
            n.parent()
        }
        SyntaxElement::Token(t) => {
            path.push(t.index());
            t.parent()
        }
    };
    while let Some(n) = parent {
        path.push(n.index());
        parent = n.parent();
    }
    path
}

struct Views<'a> {
    ids: &'a Ids,
    id: usize,
    out: Vec<String>,
}

impl Views<'_> {
    fn put(&mut self, what: &str, values: &[String]) {
        self.out
            .push(format!("[{},\"{}\",[{}]]", self.id, what, values.join(",")));
    }
    fn node<N: AstNode<Language = ludtwig_parser::syntax::untyped::TemplateLanguage>>(
        &mut self,
        what: &str,
        n: Option<N>,
    ) {
        let v: Vec<String> = n
            .iter()
            .map(|n| self.number(&SyntaxElement::Node(n.syntax().clone())))
            .collect();
        self.put(what, &v);
    }
    fn nodes<N: AstNode<Language = ludtwig_parser::syntax::untyped::TemplateLanguage>>(
        &mut self,
        what: &str,
        n: AstChildren<N>,
    ) {
        let v: Vec<String> = n
            .map(|n| self.number(&SyntaxElement::Node(n.syntax().clone())))
            .collect();
        self.put(what, &v);
    }
    fn token(&mut self, what: &str, t: Option<SyntaxToken>) {
        let v: Vec<String> = t
            .iter()
            .map(|t| self.number(&SyntaxElement::Token(t.clone())))
            .collect();
        self.put(what, &v);
    }
    fn flag(&mut self, what: &str, b: bool) {
        self.put(what, &[u32::from(b).to_string()]);
    }
    fn texts(&mut self, what: &str, t: &[String]) {
        let v: Vec<String> = t.iter().map(|t| string(t)).collect();
        self.put(what, &v);
    }
    fn number(&self, e: &SyntaxElement) -> String {
        self.ids.get(&place(e)).copied().unwrap_or(0).to_string()
    }
    fn trim<N: HasWhitespaceControl>(&mut self, n: &N) {
        fn code(t: Option<WhitespaceTrimming>) -> Vec<String> {
            match t {
                None => vec![],
                Some(WhitespaceTrimming::RemoveAll) => vec!["1".to_string()],
                Some(WhitespaceTrimming::RemoveExceptNewLines) => vec!["2".to_string()],
            }
        }
        self.put("leading", &code(n.leading_ws_control()));
        self.put("trailing", &code(n.trailing_ws_control()));
    }
}

macro_rules! casts {
    ($v:ident, $node:ident, $($name:ident),*) => {{
        let mut names = vec![];
        $(if let Some(n) = $name::cast($node.clone()) {
            assert!(n.syntax() == $node && $name::can_cast($node.kind()));
            assert!(n.to_string() == $node.text().to_string(), "text of a typed node");
            names.push(stringify!($name).to_string());
        } else {
            assert!(!$name::can_cast($node.kind()));
        })*
        $v.texts("type", &names);
    }};
}

macro_rules! trims {
    ($v:ident, $node:ident, $($name:ident),*) => {
        $(if let Some(n) = $name::cast($node.clone()) {
            $v.trim(&n);
        })*
    };
}

pub fn views(root: &SyntaxNode, ids: &Ids) -> String {
    let mut v = Views {
        ids,
        id: 0,
        out: vec![],
    };
    for node in root.descendants() {
        let node = &node;
        v.id = ids
            .get(&place(&SyntaxElement::Node(node.clone())))
            .copied()
            .unwrap_or(0);
        casts!(
            v,
            node,
            TwigBlock,
            TwigStartingBlock,
            TwigEndingBlock,
            HtmlTag,
            HtmlStartingTag,
            HtmlAttribute,
            HtmlEndingTag,
            TwigBinaryExpression,
            LudtwigDirectiveRuleList,
            LudtwigDirectiveFileIgnore,
            LudtwigDirectiveIgnore,
            TwigLiteralString,
            TwigLiteralStringInner,
            HtmlString,
            TwigExtends,
            TwigVar,
            TwigLiteralName,
            Body,
            TwigExpression,
            TwigUnaryExpression,
            TwigParenthesesExpression,
            TwigConditionalExpression,
            TwigOperand,
            TwigAccessor,
            TwigFilter,
            TwigIndexLookup,
            TwigIndex,
            TwigIndexRange,
            TwigFunctionCall,
            TwigArrowFunction,
            TwigArguments,
            TwigNamedArgument,
            TwigLiteralStringInterpolation,
            TwigLiteralNumber,
            TwigLiteralArray,
            TwigLiteralArrayInner,
            TwigLiteralNull,
            TwigLiteralBoolean,
            TwigLiteralHash,
            TwigLiteralHashItems,
            TwigLiteralHashPair,
            TwigLiteralHashKey,
            TwigLiteralHashValue,
            TwigComment,
            TwigIf,
            TwigIfBlock,
            TwigElseIfBlock,
            TwigElseBlock,
            TwigEndIfBlock,
            TwigSet,
            TwigSetBlock,
            TwigEndSetBlock,
            TwigAssignment,
            TwigFor,
            TwigForBlock,
            TwigForElseBlock,
            TwigEndForBlock,
            TwigInclude,
            TwigIncludeWith,
            TwigUse,
            TwigOverride,
            TwigApply,
            TwigApplyStartingBlock,
            TwigApplyEndingBlock,
            TwigAutoescape,
            TwigAutoescapeStartingBlock,
            TwigAutoescapeEndingBlock,
            TwigDeprecated,
            TwigDo,
            TwigEmbed,
            TwigEmbedStartingBlock,
            TwigEmbedEndingBlock,
            TwigFlush,
            TwigFrom,
            TwigImport,
            TwigSandbox,
            TwigSandboxStartingBlock,
            TwigSandboxEndingBlock,
            TwigVerbatim,
            TwigVerbatimStartingBlock,
            TwigVerbatimEndingBlock,
            TwigMacro,
            TwigMacroStartingBlock,
            TwigMacroEndingBlock,
            TwigWith,
            TwigWithStartingBlock,
            TwigWithEndingBlock,
            TwigCache,
            TwigCacheTTL,
            TwigCacheTags,
            TwigCacheStartingBlock,
            TwigCacheEndingBlock,
            TwigProps,
            TwigPropDeclaration,
            TwigComponent,
            TwigComponentStartingBlock,
            TwigComponentEndingBlock,
            ShopwareTwigExtends,
            ShopwareTwigInclude,
            ShopwareSilentFeatureCall,
            ShopwareSilentFeatureCallStartingBlock,
            ShopwareSilentFeatureCallEndingBlock,
            ShopwareReturn,
            ShopwareIcon,
            ShopwareIconStyle,
            ShopwareThumbnails,
            ShopwareThumbnailsWith,
            HtmlDoctype,
            HtmlAttributeList,
            HtmlStringInner,
            HtmlText,
            HtmlRawText,
            HtmlComment,
            Error,
            Root,
            TwigTrans,
            TwigTransStartingBlock,
            TwigTransEndingBlock
        );
        trims!(
            v,
            node,
            TwigStartingBlock,
            TwigEndingBlock,
            TwigIfBlock,
            TwigElseIfBlock,
            TwigElseBlock,
            TwigEndIfBlock,
            TwigSetBlock,
            TwigEndSetBlock,
            TwigForBlock,
            TwigForElseBlock,
            TwigEndForBlock,
            TwigInclude,
            TwigUse,
            TwigOverride,
            TwigApplyStartingBlock,
            TwigApplyEndingBlock,
            TwigAutoescapeStartingBlock,
            TwigAutoescapeEndingBlock,
            TwigDeprecated,
            TwigDo,
            TwigEmbedStartingBlock,
            TwigEmbedEndingBlock,
            TwigFlush,
            TwigFrom,
            TwigImport,
            TwigExtends,
            TwigSandboxStartingBlock,
            TwigSandboxEndingBlock,
            TwigVerbatimStartingBlock,
            TwigVerbatimEndingBlock,
            TwigMacroStartingBlock,
            TwigMacroEndingBlock,
            TwigWithStartingBlock,
            TwigWithEndingBlock,
            TwigCacheStartingBlock,
            TwigCacheEndingBlock,
            TwigProps,
            TwigComponentStartingBlock,
            TwigComponentEndingBlock,
            TwigTransStartingBlock,
            TwigTransEndingBlock,
            TwigAssignment,
            ShopwareTwigExtends,
            ShopwareTwigInclude,
            ShopwareSilentFeatureCallStartingBlock,
            ShopwareSilentFeatureCallEndingBlock,
            ShopwareReturn,
            ShopwareIcon,
            TwigVar,
            TwigComment
        );
        let trimmed = node.text_range_trimmed_trivia();
        v.put(
            "trimmed",
            &[
                u32::from(trimmed.start()).to_string(),
                u32::from(trimmed.end()).to_string(),
            ],
        );
        if let Some(n) = TwigBlock::cast(node.clone()) {
            v.token("name", n.name());
            v.node("start", n.starting_block());
            v.node("body", n.body());
            v.node("end", n.ending_block());
        } else if let Some(n) = TwigStartingBlock::cast(node.clone()) {
            v.token("name", n.name());
            v.node("of", n.twig_block());
        } else if let Some(n) = TwigEndingBlock::cast(node.clone()) {
            v.token("name", n.name());
            v.node("of", n.twig_block());
        } else if let Some(n) = HtmlTag::cast(node.clone()) {
            v.token("name", n.name());
            v.flag("selfclosing", n.is_self_closing());
            v.nodes("attributes", n.attributes());
            v.flag("component", n.is_twig_component());
            v.node("start", n.starting_tag());
            v.node("body", n.body());
            v.node("end", n.ending_tag());
        } else if let Some(n) = HtmlStartingTag::cast(node.clone()) {
            v.token("name", n.name());
            v.nodes("attributes", n.attributes());
            v.flag("component", n.is_twig_component());
            v.node("of", n.html_tag());
        } else if let Some(n) = HtmlEndingTag::cast(node.clone()) {
            v.token("name", n.name());
            v.flag("component", n.is_twig_component());
            v.node("of", n.html_tag());
        } else if let Some(n) = HtmlAttribute::cast(node.clone()) {
            v.token("name", n.name());
            v.node("value", n.value());
            v.node("of", n.html_tag());
        } else if let Some(n) = TwigBinaryExpression::cast(node.clone()) {
            v.token("operator", n.operator());
            v.node("left", n.lhs_expression());
            v.node("right", n.rhs_expression());
        } else if let Some(n) = LudtwigDirectiveRuleList::cast(node.clone()) {
            v.texts("rules", &n.get_rule_names());
        } else if let Some(n) = LudtwigDirectiveFileIgnore::cast(node.clone()) {
            v.texts("rules", &n.get_rules());
        } else if let Some(n) = LudtwigDirectiveIgnore::cast(node.clone()) {
            v.texts("rules", &n.get_rules());
        } else if let Some(n) = TwigLiteralString::cast(node.clone()) {
            v.node("inner", n.get_inner());
            v.token("open", n.get_opening_quote());
            v.token("close", n.get_closing_quote());
        } else if let Some(n) = HtmlString::cast(node.clone()) {
            v.node("inner", n.get_inner());
            v.token("open", n.get_opening_quote());
            v.token("close", n.get_closing_quote());
        } else if let Some(n) = TwigLiteralStringInner::cast(node.clone()) {
            v.nodes("interpolations", n.get_interpolations());
        } else if let Some(n) = TwigExtends::cast(node.clone()) {
            v.token("keyword", n.get_extends_keyword());
        } else if let Some(n) = TwigVar::cast(node.clone()) {
            v.node("expression", n.get_expression());
        } else if let Some(n) = TwigLiteralName::cast(node.clone()) {
            v.token("name", n.get_name());
        } else if let Some(n) = TwigFilter::cast(node.clone()) {
            v.node("left", n.operand());
            v.node("right", n.filter());
        } else if let Some(n) = TwigFunctionCall::cast(node.clone()) {
            v.node("name", n.name_operand());
            v.node("arguments", n.arguments());
        }
    }
    format!("[{}]", v.out.join(","))
}
