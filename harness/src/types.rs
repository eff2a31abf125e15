//! Which types may be sent to another thread, and which shared with one.
use serde_json::{Value, json};
use std::io::Write;
use std::marker::PhantomData;

// an inherent function is preferred to one of a trait
trait Otherwise {
    fn sends(&self) -> u8 {
        0
    }
    fn shares(&self) -> u8 {
        0
    }
}
struct Sends<T: ?Sized>(PhantomData<T>);
struct Shares<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> Otherwise for Sends<T> {}
impl<T: ?Sized> Otherwise for Shares<T> {}
impl<T: ?Sized + Send> Sends<T> {
    fn sends(&self) -> u8 {
        1
    }
}
impl<T: ?Sized + Sync> Shares<T> {
    fn shares(&self) -> u8 {
        1
    }
}

macro_rules! table {
    ($($what:literal $t:ty),* $(,)?) => {
        vec![$(json!({"ty": stringify!($t), "w": $what, "send": Sends::<$t>(PhantomData).sends(),
                      "sync": Shares::<$t>(PhantomData).shares()})),*]
    };
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum L {}
impl rowan::Language for L {
    type Kind = u16;
    fn kind_from_raw(k: rowan::SyntaxKind) -> u16 {
        k.0
    }
    fn kind_to_raw(k: u16) -> rowan::SyntaxKind {
        rowan::SyntaxKind(k)
    }
}

use rowan::{NodeOrToken, TokenAtOffset, WalkEvent, cursor};
type Any<T> = Option<T>;

pub fn emit(out: &mut Box<dyn Write>) {
    let t: Vec<Value> = table!(
        "green" rowan::GreenNode,
        "green" rowan::GreenToken,
        "green" rowan::GreenNodeData,
        "green" rowan::GreenTokenData,
        "green" NodeOrToken<rowan::GreenNode, rowan::GreenToken>,
        "green" Any<rowan::GreenNode>,
        "green" &'static rowan::GreenNodeData,
        "green" std::borrow::Cow<'static, rowan::GreenNodeData>,
        "cursor" cursor::SyntaxNode,
        "cursor" cursor::SyntaxToken,
        "cursor" cursor::SyntaxElement,
        "cursor" cursor::SyntaxNodeChildren,
        "cursor" cursor::SyntaxElementChildren,
        "cursor" cursor::Preorder,
        "cursor" cursor::PreorderWithTokens,
        "cursor" WalkEvent<cursor::SyntaxNode>,
        "cursor" TokenAtOffset<cursor::SyntaxToken>,
        "cursor" rowan::SyntaxText,
        "cursor" rowan::SyntaxNode<L>,
        "cursor" rowan::SyntaxToken<L>,
        "cursor" rowan::SyntaxElement<L>,
        "cursor" rowan::SyntaxNodeChildren<L>,
        "cursor" rowan::SyntaxElementChildren<L>,
        "cursor" rowan::api::Preorder<L>,
        "cursor" rowan::api::PreorderWithTokens<L>,
        "cursor" rowan::ast::AstChildren<Ast>,
        "cursor" &'static cursor::SyntaxNode,
        "cursor" &'static rowan::SyntaxNode<L>,
        "cursor" &'static rowan::SyntaxToken<L>,
    );
    let mut s = json!({"a":"types","rs":t}).to_string();
    s.push('\n');
    out.write_all(s.as_bytes()).unwrap();
}

#[derive(Debug, Clone)]
pub struct Ast(rowan::SyntaxNode<L>);
impl rowan::ast::AstNode for Ast {
    type Language = L;
    fn can_cast(_: u16) -> bool {
        true
    }
    fn cast(n: rowan::SyntaxNode<L>) -> Option<Ast> {
        Some(Ast(n))
    }
    fn syntax(&self) -> &rowan::SyntaxNode<L> {
        &self.0
    }
}
