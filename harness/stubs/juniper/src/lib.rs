// Stands in for juniper, which is not in the cargo cache: errors of fields, and nothing of the language.
pub use juniper_codegen::object;

/// A scalar of the schema is made from, and given out as, its text.
pub trait VxScalar {
    fn vx_from(s: String) -> Self;

    fn vx_text(&self) -> String;
}

#[derive(Debug)]
pub struct FieldError(pub String);

impl<T: std::fmt::Display> From<T> for FieldError {
    fn from(t: T) -> FieldError {
        FieldError(t.to_string())
    }
}

pub type FieldResult<T> = Result<T, FieldError>;

pub trait Context {}

pub struct RootNode<'a, Q, M>(pub Q, pub M, std::marker::PhantomData<&'a ()>);

impl<'a, Q, M> RootNode<'a, Q, M> {
    pub fn new(q: Q, m: M) -> Self {
        RootNode(q, m, std::marker::PhantomData)
    }
}

pub mod http {
    pub struct GraphQLRequest;

    pub struct GraphQLResponse;

    impl GraphQLRequest {
        pub fn execute<Q, M, C>(&self, _: &super::RootNode<Q, M>, _: &C) -> GraphQLResponse {
            GraphQLResponse
        }
    }

    impl GraphQLResponse {
        pub fn is_ok(&self) -> bool {
            true
        }
    }
}

pub mod graphiql {
    pub fn graphiql_source(at: &str) -> String {
        at.to_owned()
    }
}
