//! Stand-in for the window toolkit: enough for `run` to compile, never used.
pub struct IconData {
    pub rgba: Vec<u8>,
    pub width: u32,
    pub height: u32,
}
#[derive(Default)]
pub struct NativeOptions {
    pub follow_system_theme: bool,
    pub initial_window_size: Option<egui::Vec2>,
    pub icon_data: Option<IconData>,
    pub _rest: (),
}
pub struct CreationContext {
    pub egui_ctx: egui::Context,
}
pub trait App {}
pub fn run_native(_: &str, _: NativeOptions, _: Box<dyn FnOnce(&CreationContext) -> Box<dyn App>>) -> Result<(), ()> {
    Err(())
}
pub mod egui {
    pub struct Vec2;
    pub fn vec2(_: f32, _: f32) -> Vec2 {
        Vec2
    }
    #[derive(Default)]
    pub struct FontTweak {
        pub scale: f32,
    }
    #[derive(Default)]
    pub struct FontData {
        pub tweak: FontTweak,
    }
    #[derive(Default)]
    pub struct FontDefinitions {
        pub font_data: std::collections::BTreeMap<String, FontData>,
    }
    #[derive(Default)]
    pub struct Style;
    pub struct Context;
    impl Context {
        pub fn set_fonts(&self, _: FontDefinitions) {}
        pub fn set_style(&self, _: Style) {}
    }
}
