//! A stand-in for what the circle demo uses of bevy_prototype_lyon 0.4.
#![allow(clippy::all)]
pub mod entity {
    use crate::draw::DrawMode;
    use bevy::prelude::*;

    /// What would be drawn.
    #[derive(Clone, Debug, PartialEq)]
    pub struct Shape {
        pub radius: f32,
        pub center: Vec2,
    }
    impl Component for Shape {}
    impl Component for DrawMode {}

    pub struct ShapeBundle {
        pub shape: Shape,
        pub mode: DrawMode,
        pub transform: Transform,
    }
    impl bevy::ecs::Bundle for ShapeBundle {
        fn put(self, to: &mut bevy::ecs::Entity) {
            to.put(self.shape);
            to.put(self.mode);
            to.put(self.transform);
        }
    }
}

pub mod draw {
    use bevy::prelude::Color;
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct FillMode(pub Color);
    impl FillMode {
        pub fn color(c: Color) -> Self {
            Self(c)
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct StrokeMode(pub Color, pub f32);
    impl StrokeMode {
        pub fn new(c: Color, width: f32) -> Self {
            Self(c, width)
        }
        pub fn color(c: Color) -> Self {
            Self(c, 1.)
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum DrawMode {
        Fill(FillMode),
        Stroke(StrokeMode),
        Outlined { fill_mode: FillMode, outline_mode: StrokeMode },
    }
}

pub mod shapes {
    use bevy::prelude::Vec2;
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Circle {
        pub radius: f32,
        pub center: Vec2,
    }
    impl Default for Circle {
        fn default() -> Self {
            Self { radius: 1., center: Vec2::ZERO }
        }
    }
}

pub trait Geometry {
    fn shape(&self) -> entity::Shape;
}
impl Geometry for shapes::Circle {
    fn shape(&self) -> entity::Shape {
        entity::Shape { radius: self.radius, center: self.center }
    }
}

pub struct GeometryBuilder;
impl GeometryBuilder {
    pub fn build_as(shape: &impl Geometry, mode: draw::DrawMode, transform: bevy::prelude::Transform) -> entity::ShapeBundle {
        entity::ShapeBundle { shape: shape.shape(), mode, transform }
    }
}

pub struct ShapePlugin;
impl bevy::ecs::Plugin for ShapePlugin {}

pub mod prelude {
    pub use crate::draw::{DrawMode, FillMode, StrokeMode};
    pub use crate::{shapes, Geometry, GeometryBuilder, ShapePlugin};
}
