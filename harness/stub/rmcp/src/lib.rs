//! Stand-in for the MCP server library, which is not available here.
pub mod model {
    pub struct CallToolResult {
        pub text: String,
        pub errors: Vec<String>,
    }
    pub struct ToolAnnotations;
    impl ToolAnnotations {
        #[allow(clippy::new_without_default)]
        pub fn new() -> Self {
            ToolAnnotations
        }
        pub fn read_only(self, _: bool) -> Self {
            self
        }
    }
}
