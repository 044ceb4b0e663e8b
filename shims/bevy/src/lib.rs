//! A stand-in for what the circle demo uses of bevy 0.6. Systems run one at a
//! time, in the order that the harness (or the seed of `App::run`) chooses:
//! bevy promises no order between systems of a stage either.
#![allow(clippy::all)]
pub mod ecs;

pub mod app {
    pub use crate::ecs::{App, Plugin};
}

pub mod math {
    #[derive(Clone, Copy, Debug, PartialEq, Default)]
    pub struct Vec2 {
        pub x: f32,
        pub y: f32,
    }
    impl Vec2 {
        pub const ZERO: Vec2 = Vec2 { x: 0., y: 0. };
        pub const fn new(x: f32, y: f32) -> Self {
            Self { x, y }
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Default)]
    pub struct Vec3 {
        pub x: f32,
        pub y: f32,
        pub z: f32,
    }
    impl Vec3 {
        pub const ZERO: Vec3 = Vec3 { x: 0., y: 0., z: 0. };
        pub const ONE: Vec3 = Vec3 { x: 1., y: 1., z: 1. };
        pub const fn new(x: f32, y: f32, z: f32) -> Self {
            Self { x, y, z }
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Quat {
        pub x: f32,
        pub y: f32,
        pub z: f32,
        pub w: f32,
    }
    impl Quat {
        pub const IDENTITY: Quat = Quat { x: 0., y: 0., z: 0., w: 1. };
    }
    pub fn vec2(x: f32, y: f32) -> Vec2 {
        Vec2::new(x, y)
    }
    pub fn vec3(x: f32, y: f32, z: f32) -> Vec3 {
        Vec3::new(x, y, z)
    }
}

pub mod render {
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Color(pub [f32; 4]);
    impl Color {
        pub const BLACK: Color = Color([0., 0., 0., 1.]);
        pub const WHITE: Color = Color([1., 1., 1., 1.]);
        pub const RED: Color = Color([1., 0., 0., 1.]);
        pub const GREEN: Color = Color([0., 1., 0., 1.]);
        pub const BLUE: Color = Color([0., 0., 1., 1.]);
        pub const LIME_GREEN: Color = Color([0.2, 0.8, 0.2, 1.]);
        pub const ORANGE_RED: Color = Color([1., 0.27, 0., 1.]);
        pub const fn rgb(r: f32, g: f32, b: f32) -> Color {
            Color([r, g, b, 1.])
        }
        pub const fn rgba(r: f32, g: f32, b: f32, a: f32) -> Color {
            Color([r, g, b, a])
        }
    }
    #[derive(Clone, Debug, PartialEq)]
    pub struct Msaa {
        pub samples: u32,
    }
    #[derive(Clone, Debug, PartialEq)]
    pub struct Camera;
    impl crate::ecs::Component for Camera {}
    pub struct OrthographicCameraBundle {
        pub camera: Camera,
        pub transform: crate::transform::Transform,
    }
    impl OrthographicCameraBundle {
        pub fn new_2d() -> Self {
            Self { camera: Camera, transform: crate::transform::Transform::from_xyz(0., 0., 1000. - 0.1) }
        }
    }
    impl crate::ecs::Bundle for OrthographicCameraBundle {
        fn put(self, to: &mut crate::ecs::Entity) {
            to.put(self.camera);
            to.put(self.transform);
        }
    }
}

pub mod transform {
    use crate::math::*;
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Transform {
        pub translation: Vec3,
        pub rotation: Quat,
        pub scale: Vec3,
    }
    impl crate::ecs::Component for Transform {}
    impl Transform {
        pub const fn from_xyz(x: f32, y: f32, z: f32) -> Self {
            Self::from_translation(Vec3 { x, y, z })
        }
        pub const fn from_translation(translation: Vec3) -> Self {
            Self { translation, rotation: Quat::IDENTITY, scale: Vec3::ONE }
        }
        pub const fn identity() -> Self {
            Self::from_xyz(0., 0., 0.)
        }
    }
    impl Default for Transform {
        fn default() -> Self {
            Self::identity()
        }
    }
}

pub struct DefaultPlugins;
impl ecs::Plugin for DefaultPlugins {}

pub mod prelude {
    pub use crate::app::{App, Plugin};
    pub use crate::ecs::{Changed, Commands, In, IntoChainSystem, IntoSystem, Query, Res, ResMut, With, Without};
    pub use crate::ecs::{Bundle, Component, ParallelSystemDescriptorCoercion};
    pub use crate::math::{Quat, Vec2, Vec3};
    pub use crate::render::{Camera, Color, Msaa, OrthographicCameraBundle};
    pub use crate::transform::Transform;
    pub use crate::DefaultPlugins;
    pub use bevy_derive::{Bundle, Component};
}
