//! A small stand-in for the `chumsky` git dependency of the parser crate (not available offline):
//! the part of its interface that the repository uses (and a little more), with the same documented
//! meaning: ordered choice, backtracking on failure, `check` runs no `map` closures, `parse` demands the
//! whole input.
#![allow(clippy::type_complexity)]
use std::marker::PhantomData;
use std::ops::{Deref, Range};
use std::rc::Rc;

pub mod span {
    use std::fmt;
    use std::ops::Range;
    pub trait Span {
        type Context;
        type Offset: Clone;
        fn new(context: Self::Context, range: Range<Self::Offset>) -> Self;
        fn context(&self) -> Self::Context;
        fn start(&self) -> Self::Offset;
        fn end(&self) -> Self::Offset;
    }
    #[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct SimpleSpan<T = usize, C = ()> {
        pub start: T,
        pub end: T,
        context: C,
    }
    impl<T> SimpleSpan<T> {
        pub fn new(start: T, end: T) -> SimpleSpan<T> {
            SimpleSpan { start, end, context: () }
        }
        pub fn splat(offset: T) -> SimpleSpan<T>
        where
            T: Clone,
        {
            Self::new(offset.clone(), offset)
        }
        pub fn into_range(self) -> Range<T> {
            self.start..self.end
        }
    }
    impl<T> From<Range<T>> for SimpleSpan<T> {
        fn from(r: Range<T>) -> Self {
            SimpleSpan { start: r.start, end: r.end, context: () }
        }
    }
    impl<T> From<SimpleSpan<T>> for Range<T> {
        fn from(r: SimpleSpan<T>) -> Self {
            r.start..r.end
        }
    }
    impl<T: fmt::Debug, C> fmt::Debug for SimpleSpan<T, C> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{:?}..{:?}", self.start, self.end)
        }
    }
    impl<T: fmt::Display, C> fmt::Display for SimpleSpan<T, C> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{}..{}", self.start, self.end)
        }
    }
    impl<T: Clone> Span for SimpleSpan<T> {
        type Context = ();
        type Offset = T;
        fn new(_: (), r: Range<T>) -> Self {
            r.into()
        }
        fn context(&self) {}
        fn start(&self) -> T {
            self.start.clone()
        }
        fn end(&self) -> T {
            self.end.clone()
        }
    }
}
use span::SimpleSpan;

pub mod util {
    use super::*;
    /// A value or a reference to one.
    #[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub enum MaybeRef<'a, T> {
        Ref(&'a T),
        Val(T),
    }
    pub use self::MaybeRef as Maybe;
    impl<'a, T> MaybeRef<'a, T> {
        pub fn into_inner(self) -> T
        where
            T: Clone,
        {
            match self {
                MaybeRef::Ref(x) => x.clone(),
                MaybeRef::Val(x) => x,
            }
        }
        pub fn into_clone(self) -> MaybeRef<'static, T>
        where
            T: Clone,
        {
            MaybeRef::Val(self.into_inner())
        }
    }
    impl<T> Deref for MaybeRef<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            match self {
                MaybeRef::Ref(x) => x,
                MaybeRef::Val(x) => x,
            }
        }
    }
    impl<T> From<T> for MaybeRef<'_, T> {
        fn from(t: T) -> Self {
            MaybeRef::Val(t)
        }
    }
    pub type MaybeMut<'a, T> = MaybeRef<'a, T>;
}
use util::MaybeRef;

pub mod error {
    use super::*;
    pub trait Error<'a, I: Input<'a>>: Sized {
        fn expected_found<Iter: IntoIterator<Item = Option<MaybeRef<'a, I::Token>>>>(
            expected: Iter,
            found: Option<MaybeRef<'a, I::Token>>,
            span: I::Span,
        ) -> Self;
        fn merge(self, _other: Self) -> Self {
            self
        }
    }
    #[derive(Copy, Clone, Debug, Default, PartialEq, Eq)]
    pub struct EmptyErr(());
    impl<'a, I: Input<'a>> Error<'a, I> for EmptyErr {
        fn expected_found<Iter: IntoIterator<Item = Option<MaybeRef<'a, I::Token>>>>(
            _: Iter,
            _: Option<MaybeRef<'a, I::Token>>,
            _: I::Span,
        ) -> Self {
            EmptyErr(())
        }
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub struct Cheap<S = SimpleSpan<usize>> {
        span: S,
    }
    impl<S> Cheap<S> {
        pub fn span(&self) -> &S {
            &self.span
        }
    }
    impl<'a, I: Input<'a>> Error<'a, I> for Cheap<I::Span> {
        fn expected_found<Iter: IntoIterator<Item = Option<MaybeRef<'a, I::Token>>>>(
            _: Iter,
            _: Option<MaybeRef<'a, I::Token>>,
            span: I::Span,
        ) -> Self {
            Cheap { span }
        }
    }
}
use error::Error;

pub mod extra {
    use super::*;
    pub trait ParserExtra<'a, I: Input<'a>>: 'a {
        type Error: Error<'a, I> + 'a;
        type State: 'a;
        type Context: 'a;
    }
    pub struct Full<E, S, C>(PhantomData<(E, S, C)>);
    impl<'a, I, E, S, C> ParserExtra<'a, I> for Full<E, S, C>
    where
        I: Input<'a>,
        E: Error<'a, I> + 'a,
        S: 'a,
        C: 'a,
    {
        type Error = E;
        type State = S;
        type Context = C;
    }
    pub type Default = Full<error::EmptyErr, (), ()>;
    pub type Err<E> = Full<E, (), ()>;
    pub type Context<C> = Full<error::EmptyErr, (), C>;
    pub type State<S> = Full<error::EmptyErr, S, ()>;
}
use extra::ParserExtra;

pub mod input {
    use super::*;
    pub trait Input<'a>: 'a {
        type Token;
        type Span;
        #[doc(hidden)]
        type Pos: Copy + Ord + 'a;
        #[doc(hidden)]
        fn start(&self) -> Self::Pos;
        #[doc(hidden)]
        fn token(&self, at: Self::Pos) -> Option<(MaybeRef<'a, Self::Token>, Self::Pos)>;
        #[doc(hidden)]
        fn span(&self, r: Range<Self::Pos>) -> Self::Span;
    }
    pub trait ValueInput<'a>: Input<'a> {
        #[doc(hidden)]
        fn value(&self, at: Self::Pos) -> Option<(Self::Token, Self::Pos)>;
    }
    pub trait BorrowInput<'a>: Input<'a> {
        #[doc(hidden)]
        fn borrow(&self, at: Self::Pos) -> Option<(&'a Self::Token, Self::Pos)>;
    }
    impl<'a, T> Input<'a> for &'a [T] {
        type Token = T;
        type Span = SimpleSpan<usize>;
        type Pos = usize;
        fn start(&self) -> usize {
            0
        }
        fn token(&self, at: usize) -> Option<(MaybeRef<'a, T>, usize)> {
            self.get(at).map(|t| (MaybeRef::Ref(t), at + 1))
        }
        fn span(&self, r: Range<usize>) -> Self::Span {
            r.into()
        }
    }
    impl<'a, T: Clone> ValueInput<'a> for &'a [T] {
        fn value(&self, at: usize) -> Option<(T, usize)> {
            self.get(at).map(|t| (t.clone(), at + 1))
        }
    }
    impl<'a, T> BorrowInput<'a> for &'a [T] {
        fn borrow(&self, at: usize) -> Option<(&'a T, usize)> {
            self.get(at).map(|t| (t, at + 1))
        }
    }
    impl<'a> Input<'a> for &'a str {
        type Token = char;
        type Span = SimpleSpan<usize>;
        type Pos = usize;
        fn start(&self) -> usize {
            0
        }
        fn token(&self, at: usize) -> Option<(MaybeRef<'a, char>, usize)> {
            self.value(at).map(|(c, n)| (MaybeRef::Val(c), n))
        }
        fn span(&self, r: Range<usize>) -> Self::Span {
            r.into()
        }
    }
    impl<'a> ValueInput<'a> for &'a str {
        fn value(&self, at: usize) -> Option<(char, usize)> {
            self[at..].chars().next().map(|c| (c, at + c.len_utf8()))
        }
    }

    pub struct Marker<'a, 'parse, I: Input<'a>> {
        pos: I::Pos,
        _p: PhantomData<fn(&'a (), &'parse ())>,
    }
    impl<'a, I: Input<'a>> Copy for Marker<'a, '_, I> {}
    impl<'a, I: Input<'a>> Clone for Marker<'a, '_, I> {
        fn clone(&self) -> Self {
            *self
        }
    }
    impl<'a, 'parse, I: Input<'a>> Marker<'a, 'parse, I> {
        pub fn offset(self) -> Offset<'a, 'parse, I> {
            Offset { pos: self.pos, _p: PhantomData }
        }
    }
    pub struct Offset<'a, 'parse, I: Input<'a>> {
        pos: I::Pos,
        _p: PhantomData<fn(&'a (), &'parse ())>,
    }
    impl<'a, I: Input<'a>> Copy for Offset<'a, '_, I> {}
    impl<'a, I: Input<'a>> Clone for Offset<'a, '_, I> {
        fn clone(&self) -> Self {
            *self
        }
    }
    impl<'a, I: Input<'a>> PartialEq for Offset<'a, '_, I> {
        fn eq(&self, o: &Self) -> bool {
            self.pos == o.pos
        }
    }
    impl<'a, I: Input<'a>> Eq for Offset<'a, '_, I> {}
    impl<'a, I: Input<'a>> PartialOrd for Offset<'a, '_, I> {
        fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
            Some(self.cmp(o))
        }
    }
    impl<'a, I: Input<'a>> Ord for Offset<'a, '_, I> {
        fn cmp(&self, o: &Self) -> std::cmp::Ordering {
            self.pos.cmp(&o.pos)
        }
    }

    pub struct InputRef<'a, 'parse, I: Input<'a>, E: ParserExtra<'a, I>> {
        pub(crate) input: &'parse I,
        pub(crate) pos: I::Pos,
        pub(crate) ctx: &'parse E::Context,
    }
    impl<'a, 'parse, I: Input<'a>, E: ParserExtra<'a, I>> InputRef<'a, 'parse, I, E> {
        pub fn offset(&self) -> Offset<'a, 'parse, I> {
            Offset { pos: self.pos, _p: PhantomData }
        }
        pub fn save(&self) -> Marker<'a, 'parse, I> {
            Marker { pos: self.pos, _p: PhantomData }
        }
        pub fn rewind(&mut self, m: Marker<'a, 'parse, I>) {
            self.pos = m.pos;
        }
        pub fn ctx(&self) -> &E::Context {
            self.ctx
        }
        pub fn parse<O, P: Parser<'a, I, O, E>>(&mut self, parser: P) -> Result<O, E::Error> {
            parser.go(self)
        }
        pub fn check<O, P: Parser<'a, I, O, E>>(&mut self, parser: P) -> Result<(), E::Error> {
            parser.go_check(self)
        }
        pub fn next_maybe(&mut self) -> Option<MaybeRef<'a, I::Token>> {
            let (t, n) = self.input.token(self.pos)?;
            self.pos = n;
            Some(t)
        }
        pub fn next(&mut self) -> Option<I::Token>
        where
            I: ValueInput<'a>,
        {
            let (t, n) = self.input.value(self.pos)?;
            self.pos = n;
            Some(t)
        }
        pub fn next_ref(&mut self) -> Option<&'a I::Token>
        where
            I: BorrowInput<'a>,
        {
            let (t, n) = self.input.borrow(self.pos)?;
            self.pos = n;
            Some(t)
        }
        pub fn peek_maybe(&self) -> Option<MaybeRef<'a, I::Token>> {
            self.input.token(self.pos).map(|t| t.0)
        }
        pub fn peek(&self) -> Option<I::Token>
        where
            I: ValueInput<'a>,
        {
            self.input.value(self.pos).map(|t| t.0)
        }
        pub fn peek_ref(&self) -> Option<&'a I::Token>
        where
            I: BorrowInput<'a>,
        {
            self.input.borrow(self.pos).map(|t| t.0)
        }
        pub fn skip(&mut self) {
            let _ = self.next_maybe();
        }
        pub fn span_since(&self, before: Offset<'a, 'parse, I>) -> I::Span {
            self.input.span(before.pos..self.pos)
        }
        pub fn span(&self, range: Range<Offset<'a, 'parse, I>>) -> I::Span {
            self.input.span(range.start.pos..range.end.pos)
        }
        pub(crate) fn fail(&self, from: I::Pos) -> E::Error {
            let found = self.input.token(from).map(|t| t.0);
            E::Error::expected_found(None, found, self.input.span(from..self.pos))
        }
    }
}
use input::{BorrowInput, Input, InputRef, ValueInput};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseResult<T, E> {
    output: Option<T>,
    errs: Vec<E>,
}
impl<T, E> ParseResult<T, E> {
    pub fn has_output(&self) -> bool {
        self.output.is_some()
    }
    pub fn has_errors(&self) -> bool {
        !self.errs.is_empty()
    }
    pub fn output(&self) -> Option<&T> {
        self.output.as_ref()
    }
    pub fn errors(&self) -> impl Iterator<Item = &E> {
        self.errs.iter()
    }
    pub fn into_output(self) -> Option<T> {
        self.output
    }
    pub fn into_errors(self) -> Vec<E> {
        self.errs
    }
    pub fn into_output_errors(self) -> (Option<T>, Vec<E>) {
        (self.output, self.errs)
    }
    pub fn into_result(self) -> Result<T, Vec<E>> {
        match self.output {
            Some(o) if self.errs.is_empty() => Ok(o),
            _ => Err(self.errs),
        }
    }
    pub fn unwrap(self) -> T
    where
        E: std::fmt::Debug,
    {
        self.into_result().unwrap()
    }
}

pub trait Parser<'a, I: Input<'a>, O, E: ParserExtra<'a, I> = extra::Default> {
    #[doc(hidden)]
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error>;
    #[doc(hidden)]
    fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
        self.go(inp).map(|_| ())
    }

    fn parse(&self, input: I) -> ParseResult<O, E::Error>
    where
        Self: Sized,
        E::Context: Default,
    {
        let ctx = Default::default();
        let mut inp = InputRef { pos: input.start(), input: &input, ctx: &ctx };
        match self.go(&mut inp) {
            Ok(o) if inp.peek_maybe().is_none() => ParseResult { output: Some(o), errs: vec![] },
            Ok(_) => ParseResult { output: None, errs: vec![inp.fail(inp.pos)] },
            Err(e) => ParseResult { output: None, errs: vec![e] },
        }
    }
    fn check(&self, input: I) -> ParseResult<(), E::Error>
    where
        Self: Sized,
        E::Context: Default,
    {
        let ctx = Default::default();
        let mut inp = InputRef { pos: input.start(), input: &input, ctx: &ctx };
        match self.go_check(&mut inp) {
            Ok(()) if inp.peek_maybe().is_none() => ParseResult { output: Some(()), errs: vec![] },
            Ok(()) => ParseResult { output: None, errs: vec![inp.fail(inp.pos)] },
            Err(e) => ParseResult { output: None, errs: vec![e] },
        }
    }
    fn map<U, F: Fn(O) -> U>(self, f: F) -> Map<Self, O, F>
    where
        Self: Sized,
    {
        Map { a: self, f, _p: PhantomData }
    }
    fn map_with_span<U, F: Fn(O, I::Span) -> U>(self, f: F) -> MapWithSpan<Self, O, F>
    where
        Self: Sized,
    {
        MapWithSpan { a: self, f, _p: PhantomData }
    }
    fn filter<F: Fn(&O) -> bool>(self, f: F) -> Filter<Self, F>
    where
        Self: Sized,
    {
        Filter { a: self, f }
    }
    fn to<U: Clone>(self, to: U) -> To<Self, O, U>
    where
        Self: Sized,
    {
        To { a: self, to, _p: PhantomData }
    }
    fn ignored(self) -> To<Self, O, ()>
    where
        Self: Sized,
    {
        To { a: self, to: (), _p: PhantomData }
    }
    fn then<U, B: Parser<'a, I, U, E>>(self, b: B) -> Then<Self, B, O, U, E>
    where
        Self: Sized,
    {
        Then { a: self, b, _p: PhantomData }
    }
    fn ignore_then<U, B: Parser<'a, I, U, E>>(self, b: B) -> IgnoreThen<Self, B, O, E>
    where
        Self: Sized,
    {
        IgnoreThen { a: self, b, _p: PhantomData }
    }
    fn then_ignore<U, B: Parser<'a, I, U, E>>(self, b: B) -> ThenIgnore<Self, B, U, E>
    where
        Self: Sized,
    {
        ThenIgnore { a: self, b, _p: PhantomData }
    }
    fn delimited_by<U, V, B, C>(self, b: B, c: C) -> ThenIgnore<IgnoreThen<B, Self, U, E>, C, V, E>
    where
        Self: Sized,
        B: Parser<'a, I, U, E>,
        C: Parser<'a, I, V, E>,
    {
        ThenIgnore { a: IgnoreThen { a: b, b: self, _p: PhantomData }, b: c, _p: PhantomData }
    }
    fn or<B: Parser<'a, I, O, E>>(self, b: B) -> Or<Self, B>
    where
        Self: Sized,
    {
        Or { a: self, b }
    }
    fn or_not(self) -> OrNot<Self>
    where
        Self: Sized,
    {
        OrNot { a: self }
    }
    fn not(self) -> Not<Self, O>
    where
        Self: Sized,
    {
        Not { a: self, _p: PhantomData }
    }
    fn rewind(self) -> Rewind<Self>
    where
        Self: Sized,
    {
        Rewind { a: self }
    }
    fn and_is<U, B: Parser<'a, I, U, E>>(self, b: B) -> AndIs<Self, B, U>
    where
        Self: Sized,
    {
        AndIs { a: self, b, _p: PhantomData }
    }
    fn padded_by<U, B: Parser<'a, I, U, E> + Clone>(self, b: B) -> ThenIgnore<IgnoreThen<B, Self, U, E>, B, U, E>
    where
        Self: Sized,
    {
        ThenIgnore { a: IgnoreThen { a: b.clone(), b: self, _p: PhantomData }, b, _p: PhantomData }
    }
    fn try_map<U, F: Fn(O, I::Span) -> Result<U, E::Error>>(self, f: F) -> TryMap<Self, O, F>
    where
        Self: Sized,
    {
        TryMap { a: self, f, _p: PhantomData }
    }
    fn foldl<B, OB, F>(self, b: B, f: F) -> Foldl<Self, B, F, OB, E>
    where
        Self: Sized,
        B: IterParser<'a, I, OB, E>,
        F: Fn(O, OB) -> O,
    {
        Foldl { a: self, b, f, _p: PhantomData }
    }
    fn separated_by<U, B: Parser<'a, I, U, E>>(self, b: B) -> SeparatedBy<Self, B, O, U, I, E>
    where
        Self: Sized,
    {
        SeparatedBy { a: self, b, at_least: 0, at_most: u64::MAX, leading: false, trailing: false, _p: PhantomData }
    }
    fn repeated(self) -> Repeated<Self, O, I, E>
    where
        Self: Sized,
    {
        Repeated { a: self, at_least: 0, at_most: u64::MAX, _p: PhantomData }
    }
    fn with_ctx(self, ctx: E::Context) -> WithCtx<Self, E::Context>
    where
        Self: Sized,
    {
        WithCtx { a: self, ctx }
    }
    fn boxed<'b>(self) -> Boxed<'a, 'b, I, O, E>
    where
        Self: Sized + 'b,
    {
        Boxed { inner: Rc::new(self) }
    }
}

impl<'a, T, I, O, E> Parser<'a, I, O, E> for &T
where
    T: Parser<'a, I, O, E> + ?Sized,
    I: Input<'a>,
    E: ParserExtra<'a, I>,
{
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
        (**self).go(inp)
    }
    fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
        (**self).go_check(inp)
    }
}

pub struct Boxed<'a, 'b, I: Input<'a>, O, E: ParserExtra<'a, I>> {
    inner: Rc<dyn Parser<'a, I, O, E> + 'b>,
}
impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>> Clone for Boxed<'a, '_, I, O, E> {
    fn clone(&self) -> Self {
        Boxed { inner: self.inner.clone() }
    }
}
impl<'a, I, O, E> Parser<'a, I, O, E> for Boxed<'a, '_, I, O, E>
where
    I: Input<'a>,
    E: ParserExtra<'a, I>,
{
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
        self.inner.go(inp)
    }
    fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
        self.inner.go_check(inp)
    }
}

/// Clone and Copy that do not ask anything of the phantom parameters.
macro_rules! clone_copy {
    ($name:ident [$($t:ident),*] [$($ph:ident),*] { $($f:ident),* }) => {
        impl<$($t: Copy,)* $($ph),*> Copy for $name<$($t,)* $($ph),*> {}
        impl<$($t: Clone,)* $($ph),*> Clone for $name<$($t,)* $($ph),*> {
            fn clone(&self) -> Self {
                $name { $($f: self.$f.clone(),)* _p: PhantomData }
            }
        }
    };
}

pub struct Map<A, OA, F> {
    a: A,
    f: F,
    _p: PhantomData<fn() -> OA>,
}
impl<A: Copy, OA, F: Copy> Copy for Map<A, OA, F> {}
impl<A: Clone, OA, F: Clone> Clone for Map<A, OA, F> {
    fn clone(&self) -> Self {
        Map { a: self.a.clone(), f: self.f.clone(), _p: PhantomData }
    }
}
impl<'a, I, O, E, A, OA, F> Parser<'a, I, O, E> for Map<A, OA, F>
where
    I: Input<'a>,
    E: ParserExtra<'a, I>,
    A: Parser<'a, I, OA, E>,
    F: Fn(OA) -> O,
{
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
        self.a.go(inp).map(&self.f)
    }
    fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
        self.a.go_check(inp)
    }
}

pub struct MapWithSpan<A, OA, F> {
    a: A,
    f: F,
    _p: PhantomData<fn() -> OA>,
}
impl<A: Copy, OA, F: Copy> Copy for MapWithSpan<A, OA, F> {}
impl<A: Clone, OA, F: Clone> Clone for MapWithSpan<A, OA, F> {
    fn clone(&self) -> Self {
        MapWithSpan { a: self.a.clone(), f: self.f.clone(), _p: PhantomData }
    }
}
impl<'a, I, O, E, A, OA, F> Parser<'a, I, O, E> for MapWithSpan<A, OA, F>
where
    I: Input<'a>,
    E: ParserExtra<'a, I>,
    A: Parser<'a, I, OA, E>,
    F: Fn(OA, I::Span) -> O,
{
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
        let before = inp.offset();
        let o = self.a.go(inp)?;
        let span = inp.span_since(before);
        Ok((self.f)(o, span))
    }
    fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
        self.a.go_check(inp)
    }
}

#[derive(Copy, Clone)]
pub struct Filter<A, F> {
    a: A,
    f: F,
}
impl<'a, I, O, E, A, F> Parser<'a, I, O, E> for Filter<A, F>
where
    I: Input<'a>,
    E: ParserExtra<'a, I>,
    A: Parser<'a, I, O, E>,
    F: Fn(&O) -> bool,
{
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
        let from = inp.pos;
        let o = self.a.go(inp)?;
        if (self.f)(&o) {
            Ok(o)
        } else {
            Err(inp.fail(from))
        }
    }
}


pub struct TryMap<A, OA, F> {
    a: A,
    f: F,
    _p: PhantomData<fn() -> OA>,
}
impl<A: Copy, OA, F: Copy> Copy for TryMap<A, OA, F> {}
impl<A: Clone, OA, F: Clone> Clone for TryMap<A, OA, F> {
    fn clone(&self) -> Self {
        TryMap { a: self.a.clone(), f: self.f.clone(), _p: PhantomData }
    }
}
impl<'a, I, O, E, A, OA, F> Parser<'a, I, O, E> for TryMap<A, OA, F>
where
    I: Input<'a>,
    E: ParserExtra<'a, I>,
    A: Parser<'a, I, OA, E>,
    F: Fn(OA, I::Span) -> Result<O, E::Error>,
{
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
        let before = inp.offset();
        let o = self.a.go(inp)?;
        let span = inp.span_since(before);
        (self.f)(o, span)
    }
}

pub struct AndIs<A, B, OB> {
    a: A,
    b: B,
    _p: PhantomData<fn() -> OB>,
}
clone_copy!(AndIs [A, B] [OB] { a, b });
impl<'a, I, O, E, A, B, OB> Parser<'a, I, O, E> for AndIs<A, B, OB>
where
    I: Input<'a>,
    E: ParserExtra<'a, I>,
    A: Parser<'a, I, O, E>,
    B: Parser<'a, I, OB, E>,
{
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
        let before = inp.save();
        let o = self.a.go(inp)?;
        let after = inp.save();
        inp.rewind(before);
        self.b.go_check(inp)?;
        inp.rewind(after);
        Ok(o)
    }
}

pub struct Foldl<A, B, F, OB, E> {
    a: A,
    b: B,
    f: F,
    _p: PhantomData<fn() -> (OB, E)>,
}
clone_copy!(Foldl [A, B, F] [OB, E] { a, b, f });
impl<'a, I, O, E, A, B, OB, F> Parser<'a, I, O, E> for Foldl<A, B, F, OB, E>
where
    I: Input<'a>,
    E: ParserExtra<'a, I>,
    A: Parser<'a, I, O, E>,
    B: IterParser<'a, I, OB, E>,
    F: Fn(O, OB) -> O,
{
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
        let mut acc = Some(self.a.go(inp)?);
        self.b.each(inp, &mut |b| acc = acc.take().map(|a| (self.f)(a, b)))?;
        Ok(acc.unwrap())
    }
}

pub struct SeparatedBy<A, B, OA, OB, I, E> {
    a: A,
    b: B,
    at_least: usize,
    at_most: u64,
    leading: bool,
    trailing: bool,
    _p: PhantomData<fn() -> (OA, OB, I, E)>,
}
clone_copy!(SeparatedBy [A, B] [OA, OB, I, E] { a, b, at_least, at_most, leading, trailing });
impl<A, B, OA, OB, I, E> SeparatedBy<A, B, OA, OB, I, E> {
    pub fn at_least(self, at_least: usize) -> Self {
        Self { at_least, ..self }
    }
    pub fn at_most(self, at_most: usize) -> Self {
        Self { at_most: at_most as u64, ..self }
    }
    pub fn exactly(self, n: usize) -> Self {
        Self { at_least: n, at_most: n as u64, ..self }
    }
    pub fn allow_leading(self) -> Self {
        Self { leading: true, ..self }
    }
    pub fn allow_trailing(self) -> Self {
        Self { trailing: true, ..self }
    }
}
impl<'a, A, B, OA, OB, I, E> IterParser<'a, I, OA, E> for SeparatedBy<A, B, OA, OB, I, E>
where
    I: Input<'a>,
    E: ParserExtra<'a, I>,
    A: Parser<'a, I, OA, E>,
    B: Parser<'a, I, OB, E>,
{
    fn each(&self, inp: &mut InputRef<'a, '_, I, E>, item: &mut dyn FnMut(OA)) -> Result<(), E::Error> {
        let mut n = 0usize;
        if self.leading {
            let before = inp.save();
            if self.b.go_check(inp).is_err() {
                inp.rewind(before);
            }
        }
        while (n as u64) < self.at_most {
            let before = inp.save();
            if n > 0 {
                if let Err(e) = self.b.go_check(inp) {
                    inp.rewind(before);
                    return if n >= self.at_least { Ok(()) } else { Err(e) };
                }
            }
            match self.a.go(inp) {
                Ok(o) => item(o),
                Err(e) => {
                    inp.rewind(before);
                    if n < self.at_least {
                        return Err(e);
                    }
                    break;
                }
            }
            n += 1;
        }
        if self.trailing && n > 0 {
            let before = inp.save();
            if self.b.go_check(inp).is_err() {
                inp.rewind(before);
            }
        }
        Ok(())
    }
    fn each_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
        self.each(inp, &mut |_| ())
    }
}
impl<'a, A, B, OA, OB, I, E> Parser<'a, I, (), E> for SeparatedBy<A, B, OA, OB, I, E>
where
    I: Input<'a>,
    E: ParserExtra<'a, I>,
    A: Parser<'a, I, OA, E>,
    B: Parser<'a, I, OB, E>,
{
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
        self.each_check(inp)
    }
}

pub struct To<A, OA, U> {
    a: A,
    to: U,
    _p: PhantomData<fn() -> OA>,
}
impl<A: Copy, OA, U: Copy> Copy for To<A, OA, U> {}
impl<A: Clone, OA, U: Clone> Clone for To<A, OA, U> {
    fn clone(&self) -> Self {
        To { a: self.a.clone(), to: self.to.clone(), _p: PhantomData }
    }
}
impl<'a, I, O, E, A, OA> Parser<'a, I, O, E> for To<A, OA, O>
where
    I: Input<'a>,
    E: ParserExtra<'a, I>,
    A: Parser<'a, I, OA, E>,
    O: Clone,
{
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
        self.a.go_check(inp)?;
        Ok(self.to.clone())
    }
    fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
        self.a.go_check(inp)
    }
}

pub struct Then<A, B, OA, OB, E> {
    a: A,
    b: B,
    _p: PhantomData<fn() -> (OA, OB, E)>,
}
clone_copy!(Then [A, B] [OA, OB, E] { a, b });
impl<'a, I, E, A, B, OA, OB> Parser<'a, I, (OA, OB), E> for Then<A, B, OA, OB, E>
where
    I: Input<'a>,
    E: ParserExtra<'a, I>,
    A: Parser<'a, I, OA, E>,
    B: Parser<'a, I, OB, E>,
{
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(OA, OB), E::Error> {
        let a = self.a.go(inp)?;
        let b = self.b.go(inp)?;
        Ok((a, b))
    }
    fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
        self.a.go_check(inp)?;
        self.b.go_check(inp)
    }
}

pub struct IgnoreThen<A, B, OA, E> {
    a: A,
    b: B,
    _p: PhantomData<fn() -> (OA, E)>,
}
clone_copy!(IgnoreThen [A, B] [OA, E] { a, b });
impl<'a, I, E, A, B, OA, OB> Parser<'a, I, OB, E> for IgnoreThen<A, B, OA, E>
where
    I: Input<'a>,
    E: ParserExtra<'a, I>,
    A: Parser<'a, I, OA, E>,
    B: Parser<'a, I, OB, E>,
{
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<OB, E::Error> {
        self.a.go_check(inp)?;
        self.b.go(inp)
    }
    fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
        self.a.go_check(inp)?;
        self.b.go_check(inp)
    }
}

pub struct ThenIgnore<A, B, OB, E> {
    a: A,
    b: B,
    _p: PhantomData<fn() -> (OB, E)>,
}
clone_copy!(ThenIgnore [A, B] [OB, E] { a, b });
impl<'a, I, E, A, B, OA, OB> Parser<'a, I, OA, E> for ThenIgnore<A, B, OB, E>
where
    I: Input<'a>,
    E: ParserExtra<'a, I>,
    A: Parser<'a, I, OA, E>,
    B: Parser<'a, I, OB, E>,
{
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<OA, E::Error> {
        let a = self.a.go(inp)?;
        self.b.go_check(inp)?;
        Ok(a)
    }
    fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
        self.a.go_check(inp)?;
        self.b.go_check(inp)
    }
}

#[derive(Copy, Clone)]
pub struct Or<A, B> {
    a: A,
    b: B,
}
impl<'a, I, O, E, A, B> Parser<'a, I, O, E> for Or<A, B>
where
    I: Input<'a>,
    E: ParserExtra<'a, I>,
    A: Parser<'a, I, O, E>,
    B: Parser<'a, I, O, E>,
{
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
        let before = inp.save();
        self.a.go(inp).or_else(|_| {
            inp.rewind(before);
            self.b.go(inp)
        })
    }
    fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
        let before = inp.save();
        self.a.go_check(inp).or_else(|_| {
            inp.rewind(before);
            self.b.go_check(inp)
        })
    }
}

#[derive(Copy, Clone)]
pub struct OrNot<A> {
    a: A,
}
impl<'a, I, O, E, A> Parser<'a, I, Option<O>, E> for OrNot<A>
where
    I: Input<'a>,
    E: ParserExtra<'a, I>,
    A: Parser<'a, I, O, E>,
{
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<Option<O>, E::Error> {
        let before = inp.save();
        Ok(match self.a.go(inp) {
            Ok(o) => Some(o),
            Err(_) => {
                inp.rewind(before);
                None
            }
        })
    }
    fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
        let before = inp.save();
        if self.a.go_check(inp).is_err() {
            inp.rewind(before);
        }
        Ok(())
    }
}

pub struct Not<A, OA> {
    a: A,
    _p: PhantomData<fn() -> OA>,
}
clone_copy!(Not [A] [OA] { a });
impl<'a, I, OA, E, A> Parser<'a, I, (), E> for Not<A, OA>
where
    I: Input<'a>,
    E: ParserExtra<'a, I>,
    A: Parser<'a, I, OA, E>,
{
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
        let before = inp.save();
        let r = self.a.go_check(inp);
        inp.rewind(before);
        match r {
            Ok(()) => Err(inp.fail(inp.pos)),
            Err(_) => Ok(()),
        }
    }
}

#[derive(Copy, Clone)]
pub struct Rewind<A> {
    a: A,
}
impl<'a, I, O, E, A> Parser<'a, I, O, E> for Rewind<A>
where
    I: Input<'a>,
    E: ParserExtra<'a, I>,
    A: Parser<'a, I, O, E>,
{
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
        let before = inp.save();
        let r = self.a.go(inp)?;
        inp.rewind(before);
        Ok(r)
    }
}

#[derive(Copy, Clone)]
pub struct WithCtx<A, C> {
    a: A,
    ctx: C,
}
impl<'a, I, O, E, A, C> Parser<'a, I, O, E> for WithCtx<A, C>
where
    I: Input<'a>,
    E: ParserExtra<'a, I>,
    A: Parser<'a, I, O, extra::Full<E::Error, E::State, C>>,
    C: 'a,
{
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
        let mut inner = InputRef { input: inp.input, pos: inp.pos, ctx: &self.ctx };
        let r = self.a.go(&mut inner);
        inp.pos = inner.pos;
        r
    }
    fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
        let mut inner = InputRef { input: inp.input, pos: inp.pos, ctx: &self.ctx };
        let r = self.a.go_check(&mut inner);
        inp.pos = inner.pos;
        r
    }
}

pub mod container {
    pub trait Container<T>: Default {
        fn push(&mut self, item: T);
    }
    impl<T> Container<T> for Vec<T> {
        fn push(&mut self, item: T) {
            self.push(item)
        }
    }
    impl Container<char> for String {
        fn push(&mut self, item: char) {
            self.push(item)
        }
    }
    impl Container<String> for String {
        fn push(&mut self, item: String) {
            self.push_str(&item)
        }
    }
    impl<T> Container<T> for usize {
        fn push(&mut self, _: T) {
            *self += 1
        }
    }
    impl<T> Container<T> for () {
        fn push(&mut self, _: T) {}
    }
}
use container::Container;

/// A parser that yields any number of items.
pub trait IterParser<'a, I: Input<'a>, O, E: ParserExtra<'a, I> = extra::Default> {
    #[doc(hidden)]
    fn each(&self, inp: &mut InputRef<'a, '_, I, E>, item: &mut dyn FnMut(O)) -> Result<(), E::Error>;
    #[doc(hidden)]
    fn each_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error>;

    fn collect<C: Container<O>>(self) -> Collect<Self, O, C>
    where
        Self: Sized,
    {
        Collect { a: self, _p: PhantomData }
    }
    fn count(self) -> Collect<Self, O, usize>
    where
        Self: Sized,
    {
        Collect { a: self, _p: PhantomData }
    }
}

pub struct Collect<A, O, C> {
    a: A,
    _p: PhantomData<fn() -> (O, C)>,
}
clone_copy!(Collect [A] [O, C] { a });
impl<'a, I, O, E, A, C> Parser<'a, I, C, E> for Collect<A, O, C>
where
    I: Input<'a>,
    E: ParserExtra<'a, I>,
    A: IterParser<'a, I, O, E>,
    C: Container<O>,
{
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<C, E::Error> {
        let mut c = C::default();
        self.a.each(inp, &mut |o| c.push(o))?;
        Ok(c)
    }
    fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
        self.a.each_check(inp)
    }
}

pub struct Repeated<A, OA, I, E> {
    a: A,
    at_least: usize,
    at_most: u64,
    _p: PhantomData<fn() -> (OA, I, E)>,
}
impl<A: Copy, OA, I, E> Copy for Repeated<A, OA, I, E> {}
impl<A: Clone, OA, I, E> Clone for Repeated<A, OA, I, E> {
    fn clone(&self) -> Self {
        Repeated { a: self.a.clone(), at_least: self.at_least, at_most: self.at_most, _p: PhantomData }
    }
}
impl<A, OA, I, E> Repeated<A, OA, I, E> {
    pub fn at_least(self, at_least: usize) -> Self {
        Self { at_least, ..self }
    }
    pub fn at_most(self, at_most: usize) -> Self {
        Self { at_most: at_most as u64, ..self }
    }
    pub fn exactly(self, n: usize) -> Self {
        Self { at_least: n, at_most: n as u64, ..self }
    }
}
impl<'a, A, OA, I, E> Repeated<A, OA, I, E>
where
    I: Input<'a>,
    E: ParserExtra<'a, I>,
    A: Parser<'a, I, OA, E>,
{
    fn run<T>(
        &self,
        inp: &mut InputRef<'a, '_, I, E>,
        one: impl Fn(&A, &mut InputRef<'a, '_, I, E>) -> Result<T, E::Error>,
        item: &mut dyn FnMut(T),
    ) -> Result<(), E::Error> {
        let mut n = 0usize;
        while (n as u64) < self.at_most {
            let before = inp.save();
            match one(&self.a, inp) {
                Ok(o) => {
                    if n >= self.at_least && inp.save().offset() == before.offset() {
                        panic!("found Repeated combinator making no progress");
                    }
                    item(o)
                }
                Err(e) => {
                    inp.rewind(before);
                    return if n >= self.at_least { Ok(()) } else { Err(e) };
                }
            }
            n += 1;
        }
        Ok(())
    }
}
impl<'a, A, OA, I, E> IterParser<'a, I, OA, E> for Repeated<A, OA, I, E>
where
    I: Input<'a>,
    E: ParserExtra<'a, I>,
    A: Parser<'a, I, OA, E>,
{
    fn each(&self, inp: &mut InputRef<'a, '_, I, E>, item: &mut dyn FnMut(OA)) -> Result<(), E::Error> {
        self.run(inp, |a, inp| a.go(inp), item)
    }
    fn each_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
        self.run(inp, |a, inp| a.go_check(inp), &mut |()| ())
    }
}
impl<'a, A, OA, I, E> Parser<'a, I, (), E> for Repeated<A, OA, I, E>
where
    I: Input<'a>,
    E: ParserExtra<'a, I>,
    A: Parser<'a, I, OA, E>,
{
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
        self.each_check(inp)
    }
}

pub mod primitive {
    use super::*;

    pub struct End<I, E>(PhantomData<fn() -> (I, E)>);
    impl<I, E> Copy for End<I, E> {}
    impl<I, E> Clone for End<I, E> {
        fn clone(&self) -> Self {
            *self
        }
    }
    pub const fn end<'a, I: Input<'a>, E: ParserExtra<'a, I>>() -> End<I, E> {
        End(PhantomData)
    }
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>> Parser<'a, I, (), E> for End<I, E> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
            match inp.peek_maybe() {
                None => Ok(()),
                Some(_) => {
                    let from = inp.pos;
                    inp.skip();
                    Err(inp.fail(from))
                }
            }
        }
    }

    pub struct Empty<I, E>(PhantomData<fn() -> (I, E)>);
    impl<I, E> Copy for Empty<I, E> {}
    impl<I, E> Clone for Empty<I, E> {
        fn clone(&self) -> Self {
            *self
        }
    }
    pub const fn empty<'a, I: Input<'a>, E: ParserExtra<'a, I>>() -> Empty<I, E> {
        Empty(PhantomData)
    }
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>> Parser<'a, I, (), E> for Empty<I, E> {
        fn go(&self, _: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
            Ok(())
        }
    }

    /// A sequence of tokens to match.
    pub trait Seq<T> {
        fn each(&self, f: &mut dyn FnMut(&T) -> bool) -> bool;
    }
    impl<T> Seq<T> for T {
        fn each(&self, f: &mut dyn FnMut(&T) -> bool) -> bool {
            f(self)
        }
    }
    impl<T> Seq<T> for Vec<T> {
        fn each(&self, f: &mut dyn FnMut(&T) -> bool) -> bool {
            self.iter().all(f)
        }
    }
    impl<T, const N: usize> Seq<T> for [T; N] {
        fn each(&self, f: &mut dyn FnMut(&T) -> bool) -> bool {
            self.iter().all(f)
        }
    }
    impl<T> Seq<T> for &[T] {
        fn each(&self, f: &mut dyn FnMut(&T) -> bool) -> bool {
            self.iter().all(f)
        }
    }
    impl Seq<char> for String {
        fn each(&self, f: &mut dyn FnMut(&char) -> bool) -> bool {
            self.chars().all(|c| f(&c))
        }
    }
    impl Seq<char> for &str {
        fn each(&self, f: &mut dyn FnMut(&char) -> bool) -> bool {
            self.chars().all(|c| f(&c))
        }
    }

    pub struct Just<T, I, E> {
        seq: T,
        _p: PhantomData<fn() -> (I, E)>,
    }
    clone_copy!(Just [T] [I, E] { seq });
    pub const fn just<'a, T, I, E>(seq: T) -> Just<T, I, E>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
        I::Token: PartialEq,
        T: Seq<I::Token> + Clone,
    {
        Just { seq, _p: PhantomData }
    }
    impl<'a, I, E, T> Parser<'a, I, T, E> for Just<T, I, E>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
        I::Token: PartialEq,
        T: Seq<I::Token> + Clone,
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<T, E::Error> {
            self.go_check(inp)?;
            Ok(self.seq.clone())
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
            let from = inp.pos;
            let ok = self.seq.each(&mut |t| inp.next_maybe().is_some_and(|x| *x == *t));
            if ok {
                Ok(())
            } else {
                Err(inp.fail(from))
            }
        }
    }

    pub struct OneOf<T, I, E> {
        seq: T,
        want: bool,
        _p: PhantomData<fn() -> (I, E)>,
    }
    impl<T: Copy, I, E> Copy for OneOf<T, I, E> {}
    impl<T: Clone, I, E> Clone for OneOf<T, I, E> {
        fn clone(&self) -> Self {
            OneOf { seq: self.seq.clone(), want: self.want, _p: PhantomData }
        }
    }
    pub const fn one_of<'a, T, I, E>(seq: T) -> OneOf<T, I, E>
    where
        I: ValueInput<'a>,
        E: ParserExtra<'a, I>,
        I::Token: PartialEq,
        T: Seq<I::Token>,
    {
        OneOf { seq, want: true, _p: PhantomData }
    }
    pub const fn none_of<'a, T, I, E>(seq: T) -> OneOf<T, I, E>
    where
        I: ValueInput<'a>,
        E: ParserExtra<'a, I>,
        I::Token: PartialEq,
        T: Seq<I::Token>,
    {
        OneOf { seq, want: false, _p: PhantomData }
    }
    impl<'a, I, E, T> Parser<'a, I, I::Token, E> for OneOf<T, I, E>
    where
        I: ValueInput<'a>,
        E: ParserExtra<'a, I>,
        I::Token: PartialEq,
        T: Seq<I::Token>,
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<I::Token, E::Error> {
            let from = inp.pos;
            match inp.next() {
                Some(t) if self.seq.each(&mut |x| *x != t) != self.want => Ok(t),
                _ => Err(inp.fail(from)),
            }
        }
    }

    pub struct Any<I, E>(PhantomData<fn() -> (I, E)>);
    impl<I, E> Copy for Any<I, E> {}
    impl<I, E> Clone for Any<I, E> {
        fn clone(&self) -> Self {
            *self
        }
    }
    pub const fn any<'a, I: ValueInput<'a>, E: ParserExtra<'a, I>>() -> Any<I, E> {
        Any(PhantomData)
    }
    impl<'a, I: ValueInput<'a>, E: ParserExtra<'a, I>> Parser<'a, I, I::Token, E> for Any<I, E> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<I::Token, E::Error> {
            let from = inp.pos;
            inp.next().ok_or_else(|| inp.fail(from))
        }
    }

    pub struct Select<F, I, O, E> {
        f: F,
        _p: PhantomData<fn() -> (I, O, E)>,
    }
    clone_copy!(Select [F] [I, O, E] { f });
    pub const fn select<'a, F, I, O, E>(f: F) -> Select<F, I, O, E>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
        F: Fn(I::Token, I::Span) -> Option<O>,
    {
        Select { f, _p: PhantomData }
    }
    impl<'a, I, O, E, F> Parser<'a, I, O, E> for Select<F, I, O, E>
    where
        I: ValueInput<'a>,
        E: ParserExtra<'a, I>,
        F: Fn(I::Token, I::Span) -> Option<O>,
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
            let (before, from) = (inp.offset(), inp.pos);
            let Some(t) = inp.next() else { return Err(inp.fail(from)) };
            let span = inp.span_since(before);
            (self.f)(t, span).ok_or_else(|| inp.fail(from))
        }
    }
    pub struct SelectRef<F, I, O, E> {
        f: F,
        _p: PhantomData<fn() -> (I, O, E)>,
    }
    clone_copy!(SelectRef [F] [I, O, E] { f });
    pub const fn select_ref<'a, F, I, O, E>(f: F) -> SelectRef<F, I, O, E>
    where
        I: BorrowInput<'a>,
        I::Token: 'a,
        E: ParserExtra<'a, I>,
        F: Fn(&'a I::Token, I::Span) -> Option<O>,
    {
        SelectRef { f, _p: PhantomData }
    }
    impl<'a, I, O, E, F> Parser<'a, I, O, E> for SelectRef<F, I, O, E>
    where
        I: BorrowInput<'a>,
        I::Token: 'a,
        E: ParserExtra<'a, I>,
        F: Fn(&'a I::Token, I::Span) -> Option<O>,
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
            let (before, from) = (inp.offset(), inp.pos);
            let Some(t) = inp.next_ref() else { return Err(inp.fail(from)) };
            let span = inp.span_since(before);
            (self.f)(t, span).ok_or_else(|| inp.fail(from))
        }
    }

    #[derive(Copy, Clone)]
    pub struct Choice<T> {
        parsers: T,
    }
    pub const fn choice<T>(parsers: T) -> Choice<T> {
        Choice { parsers }
    }
    fn first<'a, I, E, A, T>(
        parsers: &[A],
        inp: &mut InputRef<'a, '_, I, E>,
        run: impl Fn(&A, &mut InputRef<'a, '_, I, E>) -> Result<T, E::Error>,
    ) -> Result<T, E::Error>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
    {
        let before = inp.save();
        let mut error: Option<E::Error> = None;
        for p in parsers {
            inp.rewind(before);
            match run(p, inp) {
                Ok(o) => return Ok(o),
                Err(e) => {
                    error = Some(match error {
                        None => e,
                        Some(old) => old.merge(e),
                    })
                }
            }
        }
        inp.rewind(before);
        Err(error.unwrap_or_else(|| inp.fail(inp.pos)))
    }
    impl<'a, I, O, E, A> Parser<'a, I, O, E> for Choice<Vec<A>>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
        A: Parser<'a, I, O, E>,
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
            first(&self.parsers, inp, |p, inp| p.go(inp))
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
            first(&self.parsers, inp, |p, inp| p.go_check(inp))
        }
    }
    impl<'a, I, O, E, A, const N: usize> Parser<'a, I, O, E> for Choice<[A; N]>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
        A: Parser<'a, I, O, E>,
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
            first(&self.parsers, inp, |p, inp| p.go(inp))
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
            first(&self.parsers, inp, |p, inp| p.go_check(inp))
        }
    }
    macro_rules! choice_tuple {
        ($($t:ident)*) => {
            #[allow(non_snake_case)]
            impl<'a, I, O, E, $($t),*> Parser<'a, I, O, E> for Choice<($($t,)*)>
            where
                I: Input<'a>,
                E: ParserExtra<'a, I>,
                $($t: Parser<'a, I, O, E>),*
            {
                fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
                    let before = inp.save();
                    let Choice { parsers: ($($t,)*) } = self;
                    $(
                        inp.rewind(before);
                        if let Ok(o) = $t.go(inp) {
                            return Ok(o);
                        }
                    )*
                    inp.rewind(before);
                    Err(inp.fail(inp.pos))
                }
                fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
                    let before = inp.save();
                    let Choice { parsers: ($($t,)*) } = self;
                    $(
                        inp.rewind(before);
                        if $t.go_check(inp).is_ok() {
                            return Ok(());
                        }
                    )*
                    inp.rewind(before);
                    Err(inp.fail(inp.pos))
                }
            }
        };
    }
    choice_tuple!(A1);
    choice_tuple!(A1 A2);
    choice_tuple!(A1 A2 A3);
    choice_tuple!(A1 A2 A3 A4);
    choice_tuple!(A1 A2 A3 A4 A5);
    choice_tuple!(A1 A2 A3 A4 A5 A6);

    pub struct Custom<F, I, O, E> {
        f: F,
        _p: PhantomData<fn() -> (I, O, E)>,
    }
    clone_copy!(Custom [F] [I, O, E] { f });
    pub const fn custom<'a, F, I, O, E>(f: F) -> Custom<F, I, O, E>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
        F: Fn(&mut InputRef<'a, '_, I, E>) -> Result<O, E::Error>,
    {
        Custom { f, _p: PhantomData }
    }
    impl<'a, I, O, E, F> Parser<'a, I, O, E> for Custom<F, I, O, E>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
        F: Fn(&mut InputRef<'a, '_, I, E>) -> Result<O, E::Error>,
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
            (self.f)(inp)
        }
    }
}

#[macro_export]
macro_rules! select {
    ($($p:pat $(= $extra:ident)? $(if $guard:expr)? $(=> $out:expr)?),+ $(,)?) => {
        $crate::primitive::select(move |x, _extra| match x {
            $($p $(if $guard)? => $crate::__select!(_extra $($extra)?; $($out)?),)+
            #[allow(unreachable_patterns)]
            _ => ::core::option::Option::None,
        })
    };
}
#[macro_export]
macro_rules! select_ref {
    ($($p:pat $(= $extra:ident)? $(if $guard:expr)? $(=> $out:expr)?),+ $(,)?) => {
        $crate::primitive::select_ref(move |x, _extra| match x {
            $($p $(if $guard)? => $crate::__select!(_extra $($extra)?; $($out)?),)+
            #[allow(unreachable_patterns)]
            _ => ::core::option::Option::None,
        })
    };
}
#[doc(hidden)]
#[macro_export]
macro_rules! __select {
    ($e:ident; $out:expr) => { ::core::option::Option::Some($out) };
    ($e:ident;) => { ::core::option::Option::Some(()) };
    ($e:ident $x:ident; $out:expr) => {{ let $x = $e; ::core::option::Option::Some($out) }};
}

pub mod cache {
    pub trait Cached {
        type Parser<'src>;
        fn make_parser<'src>(self) -> Self::Parser<'src>;
    }
    pub struct Cache<C: Cached> {
        parser: C::Parser<'static>,
    }
    impl<C: Cached> Cache<C> {
        pub fn new(cacher: C) -> Self {
            Self { parser: cacher.make_parser() }
        }
        pub fn get<'src>(&self) -> &C::Parser<'src> {
            // SAFETY: as in the original: the parser can be made for every lifetime, so it does not depend on it.
            unsafe { &*(&self.parser as *const C::Parser<'static>).cast::<C::Parser<'src>>() }
        }
    }
    impl<C: Cached + Default> Default for Cache<C> {
        fn default() -> Self {
            Self::new(C::default())
        }
    }
}

pub mod extension {
    pub mod v1 {
        use crate::*;
        pub trait ExtParser<'a, I: Input<'a>, O, E: ParserExtra<'a, I>> {
            fn parse(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error>;
            fn check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
                self.parse(inp).map(|_| ())
            }
        }
        #[derive(Copy, Clone)]
        pub struct Ext<T: ?Sized>(pub T);
        impl<'a, I, O, E, T> Parser<'a, I, O, E> for Ext<T>
        where
            I: Input<'a>,
            E: ParserExtra<'a, I>,
            T: ExtParser<'a, I, O, E>,
        {
            fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
                self.0.parse(inp)
            }
            fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
                self.0.check(inp)
            }
        }
    }
}

pub mod prelude {
    pub use super::{
        error::{Cheap, EmptyErr, Error as _},
        extra,
        input::Input,
        primitive::{any, choice, custom, empty, end, just, none_of, one_of},
        select, select_ref,
        span::{SimpleSpan, Span as _},
        Boxed, IterParser, ParseResult, Parser,
    };
}
