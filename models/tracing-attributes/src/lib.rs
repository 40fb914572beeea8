use proc_macro::TokenStream;
/// Contract of `#[instrument]` with no subscriber: the function itself.
#[proc_macro_attribute]
pub fn instrument(_args: TokenStream, item: TokenStream) -> TokenStream {
    item
}
