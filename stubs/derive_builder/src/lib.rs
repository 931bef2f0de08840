use proc_macro::TokenStream;
/// Analysis stub: the generated builder is not used by the workspace.
#[proc_macro_derive(Builder, attributes(builder))]
pub fn builder(_item: TokenStream) -> TokenStream { TokenStream::new() }
